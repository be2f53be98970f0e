"""Calibration images: background, threshold, dots and their distance."""
import math
import numpy as onp
import scipy.ndimage as ndi
import scipy.signal as sig
from engine.registry import Prop
from props.common import linmap, mean, ordered, srt

P = Prop('C30', ['util.calibration.normalize_background',
                 'util.calibration.normalize_background_based_fft',
                 'util.calibration.invert_dot_contrast',
                 'util.calibration.calculate_threshold',
                 'util.calibration.binarize_image',
                 'util.calibration.get_dot_size',
                 'util.calibration.check_dot_size',
                 'util.calibration.select_dot_based_size',
                 'util.calibration.calculate_distance'],
         'images of 3..9 x 3..12 pixels, all pixels or 3..7 of them '
         'symbolic; symbolic thresholds and dot sizes',
         ['float32 rounding', 'the Gaussian filter is the one of the '
          'utilities'], 'larger images')
CA, UT = 'algotom.util.calibration', 'algotom.util.utility'
BASE = onp.random.RandomState(21).randint(1, 40, (12, 14)) / 10.0


def near(b, i, j, size):
    """Values around a pixel, mirrored at the border."""
    h, w = len(b), len(b[0])
    f = (lambda k, n: -k - 1 if k < 0 else 2 * n - 1 - k if k >= n else k)
    lo = -(size // 2)
    return [b[f(i + p, h)][f(j + q, w)] for p in range(lo, lo + size)
            for q in range(lo, lo + size)]


def picture(ctx, h, w, hot, lo=0, hi=4, keep=None):
    b = BASE[:h, :w].tolist() if keep is None else [list(r) for r in keep]
    x = ctx.list(ctx.array('x', (len(hot),), lo, hi)) if hot else []
    for p, v in zip(hot, x):
        b[p[0]][p[1]] = v
    return b


def placed(ctx, b, hot):
    """One path per place of a symbolic pixel among the values around."""
    done = []
    rest = sorted({v for i, r in enumerate(b) for j, v in enumerate(r)
                   if (i, j) not in hot})
    for p in hot:
        x = b[p[0]][p[1]]
        k = 0
        while k < len(rest) and x > rest[k]:
            k += 1
        if k:
            ctx.assume(x > rest[k - 1] + 0.002)
        if k < len(rest):
            ctx.assume(x < rest[k] - 0.002)
        for y in done:
            if x > y:
                ctx.assume(x > y + 0.002)
            else:
                ctx.assume(x < y - 0.002)
        done.append(x)


def background(ctx, h, w, size, hot=None, zeros=()):
    """The mean of the background times the ratio of image and background
    (the running median); nothing is divided by zero."""
    m = ctx.mod(CA)
    np = ctx.np
    b = ctx.nested(ctx.array('a', (h, w), 1, 9)) if hot is None else \
        picture(ctx, h, w, hot, 0.5, 4)
    for i, j in zeros:
        b[i][j] = 0.0
    if hot is None:
        ordered(ctx, [[v for r in b for v in r]])
    else:
        placed(ctx, b, hot)
    a = np.asarray(b)
    keep = np.copy(a)
    out = m.normalize_background(a, size)
    med = [[srt(ctx, near(b, i, j, size))[size * size // 2]
            for j in range(w)] for i in range(h)]
    mu = mean([v for r in med for v in r])
    got = ctx.nested(out)
    for i in range(h):
        for j in range(w):
            k = ctx.ite(med[i][j] < 1e-6, mu, med[i][j])
            ctx.equal('normalised', [got[i][j] * k], [mu * b[i][j]])
    ctx.equal('input untouched', a, keep)


def smooth(ctx, h, w, sigma, pad):
    """The same with a Gaussian background, as much wider along the longer
    side as that is longer."""
    m, u = ctx.mod(CA), ctx.mod(UT)
    np = ctx.np
    a = ctx.array('a', (h, w), 1, 9)
    keep = np.copy(a)
    k = {} if pad == 'auto' else {'pad': pad}
    out = ctx.nested(m.normalize_background_based_fft(a, sigma, **k))
    sx, sy = sigma, sigma
    if h <= w:
        sx = int(math.ceil(sigma * w / h - 1e-9))
    else:
        sy = int(math.ceil(sigma * h / w - 1e-9))
    bck = ctx.nested(u.apply_gaussian_filter(
        a, sx, sy, pad=None if pad == 'auto' else pad, mode='reflect'))
    mu = mean([v for r in bck for v in r])
    b = ctx.nested(a)
    for i in range(h):
        for j in range(w):
            ctx.equal('normalised', [out[i][j] * bck[i][j]], [mu * b[i][j]])
    ctx.equal('input untouched', a, keep)


def contrast(ctx, h, w):
    """Most of the image is background, so dots are the fewer pixels."""
    m = ctx.mod(CA)
    np = ctx.np
    bits = [ctx.int('b%d' % k, 0, 1) for k in range(h * w)]
    a = np.asarray([[bits[i * w + j] * 1.0 for j in range(w)]
                    for i in range(h)])
    n = sum(bits)
    out = ctx.nested(m.invert_dot_contrast(a))
    inv = 2 * n > h * w
    ctx.equal('dots', out, [[ctx.ite(inv, 1.0 - bits[i * w + j],
                                     bits[i * w + j] * 1.0)
                             for j in range(w)] for i in range(h)])


def limit(ctx, b, bgr):
    """End of the smoothed curve of the sorted values."""
    h, w = len(b), len(b[0])
    n = max(h, w)
    s = srt(ctx, [v for r in b for v in r])

    def f(q):
        z = ndi.zoom(q[0], n / (h * w), mode='nearest')
        z = sig.savgol_filter(z, 2 * (n // 2) - 1, 3)
        return onp.asarray([[z[0] if bgr == 'bright' else z[-1]]])
    return linmap(f, [s])[0][0]


def threshold(ctx, h, w, bgr=None, hot=()):
    m = ctx.mod(CA)
    np = ctx.np
    b = picture(ctx, h, w, hot)
    placed(ctx, b, hot)
    if not hot:
        g, o = ctx.real('g', 0.5, 3), ctx.real('o', -2, 2)
        b = [[v * g + o for v in r] for r in b]
    k = {} if bgr is None else {'bgr': bgr}
    ctx.equal('threshold', [m.calculate_threshold(np.asarray(b), **k)],
              [limit(ctx, b, bgr or 'bright')])


def filled(g):
    """Background that touches the border stays background."""
    h, w = len(g), len(g[0])
    seen = set()
    todo = [(i, j) for i in range(h) for j in range(w)
            if (i in (0, h - 1) or j in (0, w - 1)) and not g[i][j]]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for d in ((0, 1), (1, 0), (0, -1), (-1, 0)):
            q = p[0] + d[0], p[1] + d[1]
            if 0 <= q[0] < h and 0 <= q[1] < w and not g[q[0]][q[1]]:
                todo.append(q)
    return [[0 if (i, j) in seen else 1 for j in range(w)] for i in range(h)]


def islands(g):
    """Groups of touching pixels (not diagonally)."""
    h, w = len(g), len(g[0])
    left = [(i, j) for i in range(h) for j in range(w) if g[i][j]]
    out = []
    while left:
        todo, own = [left[0]], []
        while todo:
            p = todo.pop()
            if p not in left:
                continue
            left.remove(p)
            own.append(p)
            todo += [(p[0] + a, p[1] + b) for a, b in
                     ((0, 1), (1, 0), (0, -1), (-1, 0))]
        out.append(sorted(own))
    return sorted(out)


def binary(ctx, b, thr, denoise, invert, bgr):
    """Oracle: decides every pixel on its path."""
    h, w = len(b), len(b[0])
    if denoise:
        a = [[abs(v) for v in r] for r in b]
        b = [[srt(ctx, near(a, i, j, 3))[4] for j in range(w)]
             for i in range(h)]
    t = limit(ctx, b, bgr) if thr is None else thr
    g = []
    for r in b:
        g.append([])
        for v in r:
            ctx.assume(abs(v - t) > 2e-3)
            g[-1].append(1 if v > t else 0)
    n = sum(v for r in g for v in r)
    if invert and 2 * n > h * w:
        g = [[1 - v for v in r] for r in g]
    return filled(g)


def binarize(ctx, h, w, hot, thr=None, denoise=True, invert=True, bgr=None,
             keep=None, plain=False):
    m = ctx.mod(CA)
    np = ctx.np
    b = picture(ctx, h, w, hot, keep=keep)
    a = np.asarray(b)
    kept = np.copy(a)
    if denoise or thr is None:
        placed(ctx, b, hot)
    k = {} if plain else dict(denoise=denoise, invert=invert)
    if bgr:
        k['bgr'] = bgr
    if thr == 'any':
        thr = ctx.real('t', 0.5, 3.5)
    if thr is not None:
        k['threshold'] = thr
        if denoise:
            al = [[abs(v) for v in r] for r in b]
            fl = [srt(ctx, near(al, i, j, 3))[4] for i in range(h)
                  for j in range(w)]
        else:
            fl = [v for r in b for v in r]
        lo, hi = fl[0], fl[0]
        for v in fl:
            lo, hi = ctx.min(lo, v), ctx.max(hi, v)
        ctx.assume(abs(lo - thr) > 1e-3)
        ctx.assume(abs(hi - thr) > 1e-3)
        if ctx.any([thr < lo, thr > hi]):
            return ctx.raises('threshold', ValueError,
                              lambda: m.binarize_image(a, **k))
    out = m.binarize_image(a, **k)
    ctx.equal('binary image', out, binary(ctx, b, thr, denoise, invert,
                                          bgr or 'bright'))
    ctx.check('type', str(out.dtype) == 'int16')
    ctx.equal('input untouched', a, kept)


def normed(ctx, h, w, denoise, bgr):
    """Dots of an image with an uneven background, whatever its gain."""
    m = ctx.mod(CA)
    np = ctx.np
    ctx.single_bounds()
    g = ctx.real('g', 0.5, 3)
    b = [[BASE[i, j] + 2.0 + 0.8 * i + 0.3 * j for j in range(w)]
         for i in range(h)]
    out = m.binarize_image(np.asarray([[v * g for v in r] for r in b]),
                           norm=True, denoise=denoise, bgr=bgr)
    if denoise:
        b = ndi.median_filter(onp.asarray(b), (3, 3)).tolist()
    sx = 5 if h > w else int(math.ceil(5 * w / h - 1e-9))
    sy = 5 if h <= w else int(math.ceil(5 * h / w - 1e-9))
    bck = ctx.nested(ctx.mod(UT).apply_gaussian_filter(
        np.asarray(b), sx, sy, mode='reflect'))
    mu = mean([v for r in bck for v in r])
    n = [[float(v) * float(mu) / float(k) for v, k in zip(r, s)]
         for r, s in zip(b, bck)]
    ctx.equal('binary image', out, binary(ctx, n, None, False, True, bgr))


DOTS = ['............',
        '.##...#.....',
        '.##..#?#..?.',
        '..?...#..#?.',
        '.......#....',
        '.####..?.##.',
        '.#??#....##.',
        '.#..........']
DOTS2 = ['####?..',
         '#......',
         '#.##.#.',
         '#.##.?.',
         '#....#?']
DOTS3 = ['##?.', '....', '?..#']


def mask(ctx, rows):
    """Symbolic bits at the question marks."""
    n = 0
    g = []
    for r in rows:
        g.append([])
        for c in r:
            if c == '?':
                g[-1].append(ctx.int('b%d' % n, 0, 1))
                n += 1
            else:
                g[-1].append(1 if c == '#' else 0)
    for r in g:
        for j, v in enumerate(r):
            r[j] = 1 if v > 0.5 else 0
    return g


def dots(ctx, rows, opt):
    m = ctx.mod(CA)
    g = mask(ctx, rows)
    s = sorted(len(v) for v in islands(g))
    want = {'max': s[-1], 'min': s[0], 'mean': sum(s) / len(s),
            'median': (s[len(s) // 2] + s[(len(s) - 1) // 2]) / 2}
    k = {} if opt is None else {'size_opt': opt}
    ctx.equal('size', [m.get_dot_size(ctx.np.asarray(g), **k)],
              [want[opt or 'max']])


def chosen(ctx, rows, ratio, lo=0.5, hi=12):
    """Dots of about that size stay, pixel by pixel, and nothing else."""
    m = ctx.mod(CA)
    np = ctx.np
    g = mask(ctx, rows)
    size = ctx.real('size', lo, hi)
    for v in range(int(hi * (1 + (ratio or 0.01))) + 3):
        for f in (1 - (ratio or 0.01), 1 + (ratio or 0.01)):
            ctx.assume(abs(size * f - v) > 1e-4)
    a = np.asarray(g)
    keep = np.copy(a)
    k = {} if ratio is None else {'ratio': ratio}
    out = m.select_dot_based_size(a, size, **k)
    ratio = ratio or 0.01
    lo, hi = size * (1 - ratio), size * (1 + ratio)
    want = [[0.0] * len(g[0]) for _ in g]
    for v in islands(g):
        n = len(v)
        # int(lo) <= n <= int(hi), both at least 1
        ok = ctx.all([ctx.any([n > lo - 1, n <= 1]) if n >= 1 else False,
                      lo < n + 1, ctx.any([n <= hi, n <= 1])])
        for p in v:
            want[p[0]][p[1]] = ctx.ite(ok, 1.0, 0.0)
    ctx.equal('dots', out, want)
    ctx.equal('input untouched', a, keep)


def checked(ctx, h, w):
    m = ctx.mod(CA)
    a = ctx.array('a', (h, w), 0, 1)
    lo, hi = ctx.real('lo', 0, 4), ctx.real('hi', 0, 4)
    n = sum(v for r in ctx.nested(a) for v in r)
    ok = m.check_dot_size(a, lo, hi)
    ctx.check('size', ok == (True if ctx.all([n >= lo, n <= hi]) else False))


def distance(ctx, h, w, p, q, size=2, **k):
    """Two images of one bright dot: as far as it moved, whatever its
    brightness and the background are."""
    m = ctx.mod(CA)
    np = ctx.np
    g, o = ctx.real('g', 2, 3), ctx.real('o', 0.2, 0.5)
    c = ctx.real('c', 2, 3)

    def one(at, gain):
        a = [[o] * w for _ in range(h)]
        for i in range(size):
            for j in range(size):
                a[at[0] + i][at[1] + j] = gain + 0.0
        return np.asarray(a)
    d = m.calculate_distance(one(p, g), one(q, c), threshold=1.0,
                             denoise=size > 2, **k)
    ctx.equal('distance', [d], [math.hypot(p[0] - q[0], p[1] - q[1])])


def largest(ctx, opt):
    """Smaller dots are left out, or the larger ones, as asked."""
    m = ctx.mod(CA)
    np = ctx.np
    g = ctx.real('g', 2, 3)

    def one(y, x, v, u):
        a = [[0.3] * 12 for _ in range(10)]
        for i in range(3):
            for j in range(3):
                a[y + i][x + j] = g
        a[v][u] = g
        return np.asarray(a)
    d = m.calculate_distance(one(1, 2, 8, 1), one(3, 7, 9, 10),
                             threshold=1.0, denoise=False, size_opt=opt)
    ctx.equal('distance', [d], [math.hypot(2, 5) if opt == 'max'
                                else math.hypot(1, 9)])


P.case(background, h=1, w=3, size=3)
P.case(background, h=2, w=2, size=3)
P.case(background, h=2, w=2, size=2)
P.case(background, h=3, w=4, size=3, hot=((1, 1),))
P.case(background, h=3, w=4, size=3, hot=((0, 3),))
P.case(background, h=5, w=4, size=3, hot=((2, 1),))
P.case(background, h=4, w=5, size=5, hot=((2, 3),))
P.case(background, h=4, w=4, size=2, hot=((1, 1),))
P.case(background, h=5, w=5, size=3, hot=((2, 3),),
       zeros=((0, 0), (0, 1), (1, 0), (1, 1)))
for h, w, s, pad in ((3, 4, 1, 1), (4, 3, 1, 2), (4, 4, 2, 1), (2, 5, 1, 0),
                     (5, 2, 2, 1), (3, 4, 1, 'auto')):
    P.case(smooth, h=h, w=w, sigma=s, pad=pad)
P.case(contrast, h=2, w=3)
P.case(contrast, h=1, w=5)
for bgr in (None, 'bright', 'dark'):
    P.case(threshold, h=4, w=6, bgr=bgr)
    P.case(threshold, h=6, w=5, bgr=bgr, hot=((1, 2),))
P.case(threshold, h=5, w=7, bgr='dark', hot=((1, 2), (4, 4)))
P.case(binarize, h=4, w=5, hot=((1, 2), (2, 2)), plain=True, thr=2.0)
P.case(binarize, h=4, w=5, hot=((1, 2),), thr='any')
P.case(binarize, h=4, w=5, hot=((1, 2), (2, 3), (3, 3)), denoise=False,
       thr=1.7)
P.case(binarize, h=4, w=5, hot=((1, 2), (2, 3)), denoise=False, thr=1.7,
       invert=False)
P.case(binarize, h=4, w=6, hot=((1, 2),), denoise=False, bgr='dark')
P.case(binarize, h=5, w=6, hot=((1, 2),), denoise=True, bgr='dark')
P.case(binarize, h=5, w=6, hot=((3, 4),), denoise=False, bgr='bright')
P.case(binarize, h=5, w=5, hot=((2, 2), (1, 3), (0, 1)), denoise=False,
       thr=1.5, invert=False,
       keep=[[0, 0, 0, 0, 0], [0, 3, 3, 3, 0], [0, 3, 0, 3, 0],
             [0, 3, 3, 3, 0], [0, 0, 0, 0, 3.1]])
P.case(normed, h=6, w=8, denoise=False, bgr='bright')
P.case(normed, h=8, w=6, denoise=True, bgr='dark')
for opt in (None, 'max', 'min', 'mean', 'median'):
    P.case(dots, rows=DOTS3, opt=opt)
    P.case(dots, rows=DOTS2, opt=opt)
P.case(dots, rows=DOTS, opt='median', tier='thorough')
P.case(chosen, rows=DOTS3, ratio=None)
P.case(chosen, rows=DOTS2, ratio=0.3)
P.case(chosen, rows=DOTS2, ratio=None)
P.case(chosen, rows=DOTS, ratio=0.2, tier='thorough')
P.case(checked, h=2, w=2)
P.case(distance, h=6, w=7, p=(1, 1), q=(3, 4))
P.case(distance, h=8, w=9, p=(1, 1), q=(4, 5), size=3, size_opt='mean')
P.case(distance, h=6, w=7, p=(3, 1), q=(3, 4), size_opt='median')
P.case(distance, h=6, w=7, p=(1, 1), q=(1, 1), bgr='dark')
P.case(largest, opt='max')
P.case(largest, opt='min')
