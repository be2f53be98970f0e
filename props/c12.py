"""Detection-based stripe removal: detection, large, dead, all, interpolation."""
import numpy as onp
from engine.registry import Prop
from props.common import (cols, ordered, ranks, pick, mean, srt, med, refl)

P = Prop('C12', ['util.utility.detect_stripe',
                 'util.utility.interpolate_inside_stripe',
                 'prep.removal.remove_large_stripe',
                 'prep.removal.remove_dead_stripe',
                 'prep.removal.remove_all_stripe',
                 'prep.removal.remove_stripe_based_interpolation'],
         'lists of 8..13 values with two symbolic; sinograms of 3..6 rows and '
         '12..14 columns: fixed background, one column with a symbolic '
         'offset or a symbolic fluctuation anywhere in [-4, 4]; interpolation '
         'inside a given mask: every pixel symbolic, listed masks',
         ['values compared with a detection threshold are not within 1e-3 '
          'of it, values sorted together not within 0.002'],
         'several stripes at once, larger sinograms')
REM = 'algotom.prep.removal'
UT = 'algotom.util.utility'
GAP = 0.002


def away(ctx, a, b, gap=GAP):
    """a > b, on a path where they are clearly apart."""
    if a > b:
        ctx.assume(a - b > gap)
        return True
    ctx.assume(b - a > gap)
    return False


def sort_fork(ctx, vals, gap=None):
    """Sorted values, one path per order."""
    out = []
    for v in vals:
        i = len(out)
        while i > 0:
            if away(ctx, v, out[i - 1], gap) if gap else v > out[i - 1]:
                break
            i -= 1
        out.insert(i, v)
    return out


def fit_line(ys, x0):
    n = len(ys)
    xs = [x0 + i for i in range(n)]
    mx = sum(xs) / n
    sxx = sum((x - mx) ** 2 for x in xs)
    sl = 0.0
    for x, y in zip(xs, ys):
        sl = sl + y * ((x - mx) / sxx)
    return sl, mean(ys) - sl * mx


def flags(ctx, vals, snr):
    """Values far above / below the line through the middle of the sorted
    values."""
    ctx.single_bounds()
    n = len(vals)
    s = sort_fork(ctx, vals)
    nd = int(0.25 * n)
    sl, b0 = fit_line(s[nd:n - nd - 1], nd)
    end = b0 + sl * (n - 1)
    noise = abs(end - b0)
    ctx.assume(noise > 1e-3)
    out = [False] * n
    if away(ctx, abs(s[-1] - end), noise * snr):
        out = [away(ctx, v, end + noise * (snr * 0.5)) for v in vals]
    if away(ctx, abs(b0 - s[0]), noise * snr):
        lo = b0 - noise * (snr * 0.5)
        out = [o or not away(ctx, v, lo) for o, v in zip(out, vals)]
    return out


def dilate(f):
    n = len(f)
    return [any(f[max(0, i - 1):i + 2]) for i in range(n)]


def _line(n, seed=0):
    """Noisy values around one, all different."""
    g = onp.random.RandomState(seed)
    return [round(1.0 + 0.2 * float(v), 3) for v in g.rand(n)]


def detect(ctx, n, p, snr):
    m = ctx.mod(UT)
    base = _line(n)
    x = ctx.list(ctx.array('x', (len(p),), -1, 3))
    v = list(base)
    for i, q in zip(p, x):
        v[i] = q
    a = ctx.np.asarray(v)
    keep = ctx.np.copy(a)
    f = flags(ctx, v, snr)
    out = m.detect_stripe(a, snr)
    ctx.equal('flags', out, [1.0 if t else 0.0 for t in f])
    ctx.equal('input untouched', a, keep)


def noise_free(ctx, n, slope):
    """A list without noise is refused."""
    m = ctx.mod(UT)
    v = ctx.real('v')
    a = ctx.np.asarray([v + i * slope for i in range(n)])
    ctx.raises('noise-free', ValueError, lambda: m.detect_stripe(a, 3.0))


def _sino(ctx, h, w, j, kind, rng=(0, 1)):
    """Background with one column holding an unknown."""
    k = ctx.real('k', *rng)
    col = _line(w, 3)
    g = onp.random.RandomState(11)
    out = []
    for r in range(h):
        row = [round(1.0 + col[c] + 0.3 * ((r + c) % h)
                     + 0.1 * float(g.rand()), 3) for c in range(w)]
        if kind == 'offset':
            row[j] = row[j] + k
        elif kind == 'wave':
            row[j] = row[j] + k * (1 - 2 * (r % 2))
        elif kind == 'const':
            row[j] = k + 0.001 * r
        elif kind == 'zero':        # a column around zero, another unknown
            row[j] = (-0.25, 0.25, 0.0)[r]
            row[w - 3] = row[w - 3] + k
        out.append(row)
    return out


def _factors(ctx, m, size, drop, wide=None):
    """Sorted columns, smoothed rows and the mean ratio of every column."""
    h, w = len(m), len(m[0])
    sc = cols([sort_fork(ctx, c, GAP) for c in cols(m)])
    for r in sc:
        sort_fork(ctx, r)
    sm = []
    for r in sc:
        sm.append([med(ctx, [r[refl(c - size // 2 + i, w)]
                             for i in range(size)]) for c in range(w)])
    nd = int(0.5 * min(max(drop, 0.0), 0.8) * h)
    f = []
    for c in range(w):
        a = mean([sc[r][c] for r in range(nd, h - nd)])
        b = mean([sm[r][c] for r in range(nd, h - nd)])
        f.append((a, b))
    return sm, f


def _ratio(ctx, f):
    out = []
    for a, b in f:
        ctx.assume(abs(b) > 0.01)
        if isinstance(a, (int, float)) and abs(a) < 1e-12:   # dead column
            out.append(0.0)
            continue
        ctx.assume(abs(a) > 0.01)
        out.append(a / b)
    return out


def _own(q):
    """Dead columns are not divided by zero."""
    return 1.0 if isinstance(q, float) and q == 0.0 else q


def large_oracle(ctx, a, snr, size, drop, norm):
    h, w = len(a), len(a[0])
    sm, f = _factors(ctx, a, size, drop)
    f = _ratio(ctx, f)
    bad = dilate(flags(ctx, f, snr))
    rk = [ranks(ctx, c) for c in cols(a)]
    sc = cols(sm)
    out = [[None] * w for _ in range(h)]
    for r in range(h):
        for c in range(w):
            if bad[c]:
                out[r][c] = pick(ctx, sc[c], rk[c][r])
            elif norm:
                out[r][c] = a[r][c] / _own(f[c])
            else:
                out[r][c] = a[r][c]
    return out, bad


def large(ctx, h, w, j, kind, rng, snr, size, drop, norm):
    m = ctx.mod(REM)
    al = _sino(ctx, h, w, j, kind, rng)
    a = ctx.np.asarray(al)
    keep = ctx.np.copy(a)
    want, _ = large_oracle(ctx, al, snr, size, drop, norm)
    out = m.remove_large_stripe(a, snr, size, drop, norm)
    ctx.equal('flagged columns replaced', out, want)
    ctx.equal('input untouched', a, keep)


def fill(ctx, a, bad):
    """Straight line across flagged columns."""
    w = len(bad)
    out = [list(r) for r in a]
    for c in range(w):
        if bad[c]:
            lo, hi = c, c
            while bad[lo]:
                lo -= 1
            while bad[hi]:
                hi += 1
            t = (c - lo) / (hi - lo)
            for r in range(len(a)):
                out[r][c] = a[r][lo] * (1 - t) + a[r][hi] * t
    return out


def dead_oracle(ctx, a, snr, size, width):
    h, w = len(a), len(a[0])
    d = []
    for c in cols(a):
        s = 0.0
        for r in range(h):
            sm = mean([c[refl(r - width // 2 + i, h)] for i in range(width)])
            x = c[r] - sm
            s = s + (x if x > 0 else -x)
        d.append(s)
    sort_fork(ctx, d)
    bg = [med(ctx, [d[refl(c - size // 2 + i, w)] for i in range(size)])
          for c in range(w)]
    bad = dilate(flags(ctx, [x / y for x, y in zip(d, bg)], snr))
    bad = [b and 2 <= c < w - 2 for c, b in enumerate(bad)]
    if 0 < sum(bad) < w // 3:
        return fill(ctx, a, bad)
    return a


def dead(ctx, h, w, j, kind, rng, snr, size, width, residual=False):
    m = ctx.mod(REM)
    al = _sino(ctx, h, w, j, kind, rng)
    a = ctx.np.asarray(al)
    keep = ctx.np.copy(a)
    want = dead_oracle(ctx, al, snr, size, width)
    if residual:
        # followed by the large-stripe method
        want, _ = large_oracle(ctx, want, snr, size, 0.1, True)
    out = m.remove_dead_stripe(a, snr, size, residual, width)
    ctx.equal('dead columns bridged', out, want)
    ctx.equal('input untouched', a, keep)


def everything(ctx, h, w, j, kind, rng, snr, la, sm, drop, dim):
    """Dead, then large, then small stripes, each with its own size."""
    m = ctx.mod(REM)
    al = _sino(ctx, h, w, j, kind, rng)
    a = ctx.np.asarray(al)
    keep = ctx.np.copy(a)
    s = dead_oracle(ctx, al, snr, la, 10)
    s, _ = large_oracle(ctx, s, snr, la, drop, True)
    s = m.remove_stripe_based_sorting(ctx.np.asarray(s), sm, dim)
    out = m.remove_all_stripe(a, snr, la, sm, drop, dim)
    ctx.equal('three methods in turn', out, s)
    ctx.equal('input untouched', a, keep)


def interpolation(ctx, h, w, j, kind, rng, snr, size, drop, norm):
    m = ctx.mod(REM)
    al = _sino(ctx, h, w, j, kind, rng)
    a = ctx.np.asarray(al)
    keep = ctx.np.copy(a)
    _, f = _factors(ctx, al, size, drop)
    f = _ratio(ctx, f)
    bad = dilate(flags(ctx, f, snr))
    bad = [b and 2 <= c < w - 2 for c, b in enumerate(bad)]
    s = [[v / _own(q) for v, q in zip(r, f)] for r in al] if norm else al
    out = m.remove_stripe_based_interpolation(a, snr, size, drop, norm,
                                              'linear')
    ctx.equal('flagged columns bridged', out, fill(ctx, s, bad))
    ctx.equal('input untouched', a, keep)


def smooth_back(ctx, w, j, kind, snr, size):
    """A stripe on a smooth background (degree 2) disappears with every
    kind of spline."""
    m = ctx.mod(REM)
    h = 5
    k = ctx.real('k', 1, 4)
    bg = [[3.0 + 0.02 * (c - 7.3) ** 2 + 0.2 * r for c in range(w)]
          for r in range(h)]
    al = [[v + k if c == j else v for c, v in enumerate(r)] for r in bg]
    a = ctx.np.asarray(al)
    keep = ctx.np.copy(a)
    _, f = _factors(ctx, al, size, 0.1)
    f = _ratio(ctx, f)
    bad = dilate(flags(ctx, f, snr))
    out = m.remove_stripe_based_interpolation(a, snr, size, 0.1, False, kind)
    ctx.assume(bad[j])
    ctx.equal('background restored', out, bg)
    ctx.equal('input untouched', a, keep)


def inside(ctx, h, mask, poly=None):
    """Only masked columns change; two columns at each side are kept."""
    m = ctx.mod(UT)
    np = ctx.np
    w = len(mask)
    bad = [bool(b) and 2 <= c < w - 2 for c, b in enumerate(mask)]
    mk = np.asarray([float(v) for v in mask])
    mk0 = np.copy(mk)
    if poly is None:
        a = ctx.array('a', (h, w))
        keep = np.copy(a)
        out = m.interpolate_inside_stripe(a, mk)
        ctx.equal('bridged', out, fill(ctx, ctx.nested(a), bad))
    else:
        co = ctx.list(ctx.array('co', (6,), -1, 1))
        z = ctx.list(ctx.array('z', (h,)))
        bg = [[co[0] + co[1] * c + co[2] * r + co[3] * (c * r)
               + co[4] * (c * c) + co[5] * (r * r) for c in range(w)]
              for r in range(h)]
        a = np.asarray([[z[r] if bad[c] else bg[r][c] for c in range(w)]
                        for r in range(h)])
        keep = np.copy(a)
        out = m.interpolate_inside_stripe(a, mk, kind=poly)
        ctx.equal('smooth background restored', out, bg)
    ctx.equal('inputs untouched', [a, mk], [keep, mk0])


def wrong(ctx):
    m, u = ctx.mod(REM), ctx.mod(UT)
    a = ctx.array('a', (4, 6))
    for n in (5, 7):
        ctx.raises('mask length', ValueError, lambda:
                   u.interpolate_inside_stripe(a, ctx.np.zeros(n)))
    b = ctx.np.asarray(_sino(ctx, 4, 12, 5, 'none'))
    for f in (m.remove_large_stripe, m.remove_stripe_based_interpolation):
        ctx.raises('unknown method', ValueError, lambda: f(
            b, opt={'method': 'no_such_filter', 'para': 1}))
        ctx.raises('not a dictionary', ValueError, lambda: f(
            b, opt=('median_filter', 3)))


def option(ctx, h, w, j, f, norm):
    """Another smoothing method takes the place of the median."""
    import scipy.ndimage as sn
    m = ctx.mod(REM)
    al = _sino(ctx, h, w, j, 'offset', (1, 4))
    a = ctx.np.asarray(al)
    _, q = _factors(ctx, al, 3, 0.2)
    flags(ctx, _ratio(ctx, q), 2.0)
    o1 = getattr(m, f)(a, 2.0, 3, 0.2, norm)
    o2 = getattr(m, f)(a, 2.0, 77, 0.2, norm, opt={
        'method': 'median_filter', 'para': (1, 3)})
    ctx.equal('same filter, given as an option', o2, o1)


for p, n, snr in (((2, 9), 11, 3.0), ((0, 11), 12, 1.5), ((4, 5), 8, 2.0),
                  ((12, 3), 13, 5.0)):
    P.case(detect, n=n, p=p, snr=snr)
P.case(noise_free, n=9, slope=0.0)
P.case(noise_free, n=12, slope=5e-7)
for n, (h, w, j, kind, rng, snr, size, drop, norm) in enumerate((
        (4, 12, 5, 'offset', (0.5, 4), 3.0, 5, 0.1, True),
        (3, 11, 4, 'offset', (0.22, 0.3), 2.0, 5, 0.1, True),
        (4, 12, 6, 'offset', (-1.5, -0.8), 3.0, 5, 0.5, False),
        (3, 12, 0, 'offset', (0.6, 3), 2.0, 3, 0.1, True),
        (4, 10, 6, 'wave', (1.2, 2), 1.5, 4, 0.5, False),
        (4, 13, 11, 'offset', (0.5, 4), 2.0, 5, 2.0, True),
        (4, 12, 6, 'offset', (-4, 4), 3.0, 5, 0.5, False),
        (5, 12, 8, 'wave', (0.8, 2), 1.5, 4, 0.5, False),
        (3, 9, 4, 'offset', (-0.1, 0.3), 2.0, 3, 0.1, True),
        (5, 12, 8, 'wave', (-2, 2), 1.5, 4, 0.5, True))):
    for f in (large, interpolation):
        P.case(f, h=h, w=w, j=j, kind=kind, rng=rng, snr=snr, size=size,
               drop=drop, norm=norm, tier='quick' if n < 6 else 'thorough')
for f in (large, interpolation):
    for norm in (True, False):
        for rng in ((0, 0.5), (4, 6)):
            P.case(f, h=3, w=12, j=5, kind='zero', rng=rng, snr=3.0, size=5,
                   drop=0.1, norm=norm)
            P.case(f, h=3, w=12, j=5, kind='zero', rng=rng, snr=40.0, size=5,
                   drop=0.1, norm=norm)
for j in (0, 1, 10, 11):    # borders of the image are kept
    P.case(interpolation, h=3, w=12, j=j, kind='offset', rng=(0.8, 2),
           snr=2.0, size=5, drop=0.1, norm=False)
for n, (h, w, j, kind, rng, snr, size, width) in enumerate((
        (4, 12, 5, 'const', (0, 2), 3.0, 5, 2),
        (5, 12, 6, 'wave', (0.6, 2), 2.0, 5, 3),
        (4, 14, 2, 'wave', (0.6, 2), 1.5, 7, 10),
        (6, 13, 0, 'const', (0, 2), 2.0, 5, 4),
        (5, 12, 6, 'wave', (-2, 2), 2.0, 5, 3))):
    P.case(dead, h=h, w=w, j=j, kind=kind, rng=rng, snr=snr, size=size,
           width=width, tier='quick' if n < 4 else 'thorough')
for kind, rng in (('wave', (1, 1.5)), ('wave', (0.6, 2))):
    P.case(dead, h=4, w=12, j=6, kind=kind, rng=rng, snr=2.0, size=5,
           width=3, residual=True, tier='quick' if rng[0] == 1 else 'thorough')
for dim in (1, 2):
    for rng in ((0.6, 2), (-2, 2)):
        P.case(everything, h=3, w=12, j=6, kind='offset', rng=rng, snr=2.0,
               la=5, sm=3, drop=0.1, dim=dim,
               tier='quick' if rng[0] > 0 else 'thorough')
for kind in ('linear', 'cubic', 'quintic'):
    P.case(smooth_back, w=16, j=7, kind=kind if kind != 'linear' else 'cubic',
           snr=2.0 if kind != 'linear' else 1.5, size=11)
for mask in ((0, 0, 0, 1, 1, 0, 0, 0), (1, 1, 1, 0, 0, 1, 0, 1, 1),
             (0, 1, 0, 1, 0, 1, 0, 0), (0,) * 6, (0, 0, 1, 1, 1, 0, 0)):
    P.case(inside, h=2, mask=mask)
    P.case(inside, h=3, mask=mask)
for kind in ('cubic', 'quintic'):
    P.case(inside, h=5, mask=(0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0),
           poly=kind)
    P.case(inside, h=4, mask=(0, 1, 0, 1, 0, 0, 0, 0, 0, 0), poly=kind)
P.case(wrong)
for f in ('remove_large_stripe', 'remove_stripe_based_interpolation'):
    P.case(option, h=3, w=12, j=6, f=f, norm=True)
