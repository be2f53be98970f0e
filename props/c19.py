"""Statistics, down-sampling and rescaling of images and datasets."""
import math
import os
from engine.registry import Prop
from props.common import srt
from props.c18 import put_tifs

P = Prop('C19', ['post.postprocessing.get_statistical_information',
                 'post.postprocessing.get_statistical_information_dataset',
                 'post.postprocessing.downsample',
                 'post.postprocessing.rescale',
                 'post.postprocessing.downsample_dataset',
                 'post.postprocessing.rescale_dataset'],
         'images of 2x2 .. 5x5 pixels, datasets of 1..5 images, every pixel '
         'symbolic; arrays, tif folders and hdf files in and out; listed '
         'crops, cells, methods, percentiles, ranges',
         ['float32 rounding', 'reading a file gives the array written to it',
          'values are not within 1e-3 of a rounding step'],
         'constant data without a range to rescale to; 100000 images or more')
POST = 'algotom.post.postprocessing'
LOS = 'algotom.io.loadersaver'


def perc(s, q):
    h = (len(s) - 1) * q / 100.0
    lo = int(h)
    t = h - lo
    return s[lo] if t == 0 else s[lo] * (1 - t) + s[lo + 1] * t


def info(ctx, img, pc):
    v = [x for r in img for x in r]
    s = srt(ctx, v)
    n = len(v)
    mu = sum(v) / n
    return [s[0], s[-1], perc(s, pc[0]), perc(s, pc[-1]), mu, perc(s, 50),
            sum((x - mu) * (x - mu) for x in v) / n]


def blur(img, sigma=2.0):
    """Gaussian smoothing along both axes, cut at 4 sigma, mirrored edges."""
    r = int(4 * sigma + 0.5)
    g = [math.exp(-0.5 * (t / sigma) ** 2) for t in range(-r, r + 1)]
    g = [v / sum(g) for v in g]

    def line(v):
        n = len(v)
        out = []
        for i in range(n):
            c = [0.0] * n
            for t in range(-r, r + 1):
                j = (i + t) % (2 * n)
                c[j if j < n else 2 * n - 1 - j] += g[t + r]
            out.append(sum(v[j] * c[j] for j in range(n)))
        return out
    rows = [line(v) for v in img]
    return [list(x) for x in zip(*[line(list(c)) for c in zip(*rows)])]


def stat(ctx, shape, pc, denoise=False):
    m = ctx.mod(POST)
    np = ctx.np
    a = ctx.array('a', shape)
    keep = np.copy(a)
    out = m.get_statistical_information(a, pc, denoise)
    img = ctx.nested(keep)
    if denoise:
        img = blur(img)
    want = info(ctx, img, pc)
    for k, q in enumerate(('min', 'max', 'low percentile', 'high percentile',
                           'mean', 'median', 'variance')):
        ctx.equal(q, out[k], want[k])
    ctx.equal('image untouched', a, keep)


def crop3(a, c):
    d, h, w = a.shape
    return a[c[0]:d - c[1], c[2]:h - c[3], c[4]:w - c[5]]


def source(ctx, a, src):
    """The dataset as an array, a folder or a file."""
    base = ctx.tmp()
    if src == 'array':
        return a, {}
    if src == 'tif':
        put_tifs(ctx, os.path.join(base, 'in'), a)
        return os.path.join(base, 'in'), {}
    ctx.put_hdf(os.path.join(base, 'in.hdf'), {'e/d': a})
    return os.path.join(base, 'in.hdf'), {'key_path': 'e/d'}


def stat_dataset(ctx, shape, src, skip, pc=(0, 100), crop=(0,) * 6,
                 denoise=False):
    """Global figures of every skip-th image of the cropped data."""
    m = ctx.mod(POST)
    np = ctx.np
    a = ctx.array('a', shape, dtype='float32')
    keep = np.copy(a)
    arg, k = source(ctx, a, src)
    out = m.get_statistical_information_dataset(
        arg, percentile=pc, skip=skip, denoise=denoise, crop=crop, **k)
    c = crop3(keep, crop)
    n = len(c)
    step = max(1, min(skip, n - 1))
    one = []
    for i in range(0, n, step):
        one.append(list(m.get_statistical_information(np.copy(c[i]), pc,
                                                      denoise)))
    lo = hi = None
    col = [list(x) for x in zip(*one)]

    def red(f, v):
        r = v[0]
        for x in v[1:]:
            r = f(r, x)
        return r
    q = len(one)
    want = [red(ctx.min, col[0]), red(ctx.max, col[1]),
            red(ctx.min, col[2]), red(ctx.max, col[3]), sum(col[4]) / q,
            perc(srt(ctx, col[5]), 50), sum(col[6]) / q]
    for i, lab in enumerate(('min', 'max', 'low percentile',
                             'high percentile', 'mean', 'median',
                             'variance')):
        ctx.equal(lab, out[i], want[i])
    ctx.equal('input untouched', a, keep)


# ------------------------------------------------------------ down-sampling
def fold(ctx, vals, how):
    if how == 'mean':
        return sum(vals) / len(vals)
    if how == 'median':
        return perc(srt(ctx, vals), 50)
    r = vals[0]
    for v in vals[1:]:
        r = ctx.min(r, v) if how == 'min' else ctx.max(r, v)
    return r


def down2(ctx, img, cy, cx, how):
    """Columns of a cell first, then its rows."""
    h, w = len(img) // cy, len(img[0]) // cx
    return [[fold(ctx, [fold(ctx, img[i * cy + p][j * cx:(j + 1) * cx], how)
                        for p in range(cy)], how)
             for j in range(w)] for i in range(h)]


def down3(ctx, vol, c, how):
    n = len(vol) // c[0]
    h, w = len(vol[0]) // c[1], len(vol[0][0]) // c[2]
    out = []
    for k in range(n):
        pl = [[[fold(ctx, [fold(ctx, vol[k * c[0] + z][y][j * c[2]:
                                                          (j + 1) * c[2]],
                                how) for z in range(c[0])], how)
                for j in range(w)] for y in range(h * c[1])]]
        out.append([[fold(ctx, [pl[0][i * c[1] + p][j]
                                for p in range(c[1])], how)
                     for j in range(w)] for i in range(h)])
    return out


def down(ctx, shape, cell, how):
    m = ctx.mod(POST)
    np = ctx.np
    a = ctx.array('a', shape)
    keep = np.copy(a)
    k = {} if how is None else {'method': how}
    out = m.downsample(a, cell, **k)
    c = (cell, cell) if isinstance(cell, int) else cell
    ctx.equal('cells', out, down2(ctx, ctx.nested(keep), c[0], c[1],
                                  how or 'mean'))
    ctx.equal('image untouched', a, keep)


def result(ctx, ret, out, n, names=None):
    """What was returned or saved, as an array."""
    np = ctx.np
    if out is None:
        return ret
    if out.endswith('.hdf'):
        if ret is not None and hasattr(ret, 'file'):
            ctx.close_hdf(ret)
        return ctx.get_hdf(out, 'entry/data')
    fs = sorted(os.listdir(out))
    ctx.equal('files', fs, names or ['img_%05d.tif' % i for i in range(n)])
    return np.asarray([ctx.get_image(os.path.join(out, f)) for f in fs])


def target(ctx, dst):
    base = ctx.tmp()
    return None if dst is None else os.path.join(
        base, 'out' if dst == 'tif' else 'out.hdf')


def down_dataset(ctx, shape, cell, src, dst, how='mean', crop=(0,) * 6,
                 dtype='float32'):
    m = ctx.mod(POST)
    np = ctx.np
    a = ctx.array('a', shape, 0 if dtype[0] == 'u' else -4,
                  200 if dtype[0] == 'u' else 4, dtype)
    keep = np.copy(a)
    arg, k = source(ctx, a, src)
    out = target(ctx, dst)
    ret = m.downsample_dataset(arg, out, cell, method=how, crop=crop, **k)
    c = (cell,) * 3 if isinstance(cell, int) else cell
    want = down3(ctx, ctx.nested(crop3(keep, crop)), c, how)
    got = result(ctx, ret, out, len(want))
    ctx.check('type', str(got.dtype) == dtype)
    if dtype[0] == 'u':
        want = [[[ctx.trunc(v) for v in r] for r in i] for i in want]
        ctx.equal('down-sampled', got, want, tol=1.001)
    else:
        ctx.equal('down-sampled', got, want)
    ctx.equal('input untouched', a, keep)


# ---------------------------------------------------------------- rescaling
def steps(ctx, lab, got, want, nbit, lo, hi):
    """got is the floor of the clipped value on the scale of nbit."""
    top = 255 if nbit == 8 else 65535
    for g, v in zip([x for r in got for x in r], [x for r in want for x in r]):
        v = ctx.min(ctx.max(v, lo), hi)
        q = (v - lo) * top        # compare after multiplying by hi - lo
        d = (hi - lo)
        ctx.check(lab, ctx.all([g * d <= q + 0.01 * d,
                                q <= (g + 1.01) * d, g >= 0, g <= top]))


def scale(ctx, shape, nbit, minmax, dtype='float32', sym=False):
    m = ctx.mod(POST)
    np = ctx.np
    u = dtype[0] == 'u'
    a = ctx.array('a', shape, 0 if u else -4, (255 if dtype == 'uint8' else
                                                60000) if u else 4, dtype)
    keep = np.copy(a)
    al = ctx.nested(keep)
    if sym:
        lo = ctx.real('lo', -3, 0)
        minmax = (lo, lo + 2.5)
    if minmax is None:
        v = [x for r in al for x in r]
        lo, hi = v[0], v[0]
        for x in v:
            lo, hi = ctx.min(lo, x), ctx.max(hi, x)
        ctx.assume(hi - lo > 1)
    else:
        lo, hi = minmax
    out = m.rescale(a, nbit=nbit, minmax=minmax)
    ctx.check('type', str(out.dtype) == 'uint%d' % nbit)
    steps(ctx, 'scaled to the full range', ctx.nested(out), al, nbit, lo, hi)
    ctx.equal('image untouched', a, keep)


def scale_dataset(ctx, shape, src, dst, nbit, minmax, crop=(0,) * 6,
                  skip=None, overwrite=False, how=None, cell=None,
                  dtype='float32'):
    """Every image goes through one global range (given, or the extremes of
    every skip-th image)."""
    m = ctx.mod(POST)
    np = ctx.np
    u = dtype[0] == 'u'
    a = ctx.array('a', shape, 0 if u else -4,
                  (200 if dtype == 'uint8' else 60000) if u else 4, dtype)
    keep = np.copy(a)
    c = crop3(keep, crop)
    arg, k = source(ctx, a, src)
    out = target(ctx, dst)
    if overwrite and dst == 'hdf':
        ctx.put_hdf(out, {'old': a})
    if minmax is None:
        if u and how:
            lo, hi = 0, (255 if dtype == 'uint8' else 65535)
        else:
            s = skip or 1
            st = m.get_statistical_information_dataset(
                np.copy(c), skip=s)
            lo, hi = st[0], st[1]
            ctx.assume(hi - lo > 1)
    else:
        lo, hi = minmax
    if how:
        ret = m.downsample_dataset(arg, out, cell, method=how, rescaling=True,
                                   nbit=nbit, minmax=minmax, skip=skip,
                                   crop=crop, overwrite=overwrite, **k)
        want = down3(ctx, ctx.nested(c), cell, how)
    else:
        ret = m.rescale_dataset(arg, out, nbit=nbit, minmax=minmax, skip=skip,
                                crop=crop, overwrite=overwrite, **k)
        want = ctx.nested(c)
    first = 0 if how else crop[0]
    got = result(ctx, ret, out, len(want), ['img_%05d.tif' % (first + i)
                                            for i in range(len(want))])
    if nbit == 32:
        ctx.equal('values kept', got, want)
    else:
        ctx.check('type', str(got.dtype) == 'uint%d' % nbit)
        for g, w in zip(ctx.nested(got), want):
            steps(ctx, 'scaled to the range', g, w, nbit, lo, hi)
    if overwrite and out:
        ctx.check('one output', os.listdir(os.path.dirname(out)) ==
                  [os.path.basename(out)])
    ctx.equal('input untouched', a, keep)


def bad(ctx):
    m = ctx.mod(POST)
    a = ctx.array('a', (3, 4, 4))
    base = ctx.tmp()
    f = base + '/a.hdf'
    with open(f, 'w') as h:
        h.write('old')
    os.makedirs(base + '/d')
    for fn, x in ((m.downsample_dataset, (2,)), (m.rescale_dataset, ())):
        ctx.raises('existing file', ValueError, lambda: fn(a, f, *x))
        ctx.raises('existing folder', ValueError,
                   lambda: fn(a, base + '/d', *x))
        ctx.raises('format', ValueError, lambda: fn(a, base + '/b.txt', *x))
        ctx.raises('crop', ValueError, lambda: fn(
            a, None, *x, crop=(1, 2, 0, 0, 0, 0)))
        ctx.raises('crop', ValueError, lambda: fn(
            a, None, *x, crop=(1, 0, 0, 0)))
        ctx.raises('input', ValueError, lambda: fn([1, 2], None, *x))
    ctx.raises('cell', ValueError, lambda: m.downsample_dataset(
        a, None, (4, 1, 1)))
    ctx.raises('bits', ValueError, lambda: m.rescale(a[0], nbit=12))
    ctx.raises('bits', ValueError, lambda: m.downsample_dataset(
        a, None, 2, rescaling=True, nbit=32))
    with open(f) as h:
        ctx.check('existing file untouched', h.read() == 'old')
    ctx.check('nothing written', sorted(os.listdir(base)) == ['a.hdf', 'd'])


P.case(stat, shape=(2, 2), pc=(0, 100))
P.case(stat, shape=(2, 3), pc=(10, 80))
P.case(stat, shape=(1, 5), pc=(25, 75))
P.case(stat, shape=(2, 2), pc=(5, 95), denoise=True)
for src in ('array', 'tif', 'hdf'):
    P.case(stat_dataset, shape=(3, 1, 2), src=src, skip=1)
    P.case(stat_dataset, shape=(5, 3, 4), src=src, skip=2, pc=(20, 90),
           crop=(1, 0, 1, 1, 0, 2))
    P.case(stat_dataset, shape=(2, 2, 2), src=src, skip=1, denoise=True)
    P.case(stat_dataset, shape=(1, 2, 2), src=src, skip=5)
    for dst in (None, 'tif', 'hdf'):
        P.case(down_dataset, shape=(5, 4, 5), cell=2, src=src, dst=dst)
        P.case(scale_dataset, shape=(3, 2, 2), src=src, dst=dst, nbit=8,
               minmax=(-1.5, 2.0))
        P.case(scale_dataset, shape=(3, 2, 3), src=src, dst=dst, nbit=16,
               minmax=(-3.0, 3.5), crop=(1, 0, 0, 0, 1, 0), overwrite=True)
        P.case(scale_dataset, shape=(3, 2, 2), src=src, dst=dst, nbit=32,
               minmax=(0.0, 1.0), crop=(0, 1, 0, 0, 0, 0))
        P.case(scale_dataset, shape=(4, 2, 2), src=src, dst=dst, nbit=8,
               minmax=(-1.0, 1.0), how='mean', cell=(2, 1, 2),
               overwrite=True)
        P.case(down_dataset, shape=(4, 3, 3), cell=(2, 1, 3), src=src,
               dst=dst, how='max', crop=(1, 0, 0, 1, 0, 0))
    P.case(down_dataset, shape=(3, 4, 5), cell=(3, 2, 2), src=src, dst=None,
           how='min', crop=(0, 0, 1, 0, 0, 1))
    P.case(down_dataset, shape=(2, 2, 3), cell=(2, 2, 3), src=src, dst=None,
           how='median')
    P.case(down_dataset, shape=(2, 2, 4), cell=2, src=src, dst='tif',
           dtype='uint8')
    P.case(scale_dataset, shape=(2, 1, 2), src=src, dst=None, nbit=8,
           minmax=None, skip=1)
    P.case(scale_dataset, shape=(4, 1, 2), src=src, dst=None, nbit=8,
           minmax=None, skip=3)
    P.case(scale_dataset, shape=(1, 1, 3), src=src, dst=None, nbit=16,
           minmax=None)
    P.case(scale_dataset, shape=(2, 1, 2), src=src, dst=None, nbit=8,
           minmax=None, skip=1, how='max', cell=(1, 1, 1))
    P.case(scale_dataset, shape=(2, 2, 2), src=src, dst=None, nbit=8,
           minmax=None, how='max', cell=(1, 2, 1), dtype='uint16')
    P.case(scale_dataset, shape=(2, 2, 3), src=src, dst=None, nbit=8,
           minmax=None, skip=1, how='max', cell=(1, 1, 1),
           crop=(0, 0, 1, 0, 0, 1))
    P.case(scale_dataset, shape=(3, 1, 3), src=src, dst=None, nbit=16,
           minmax=None, skip=1, how='min', cell=(1, 1, 1),
           crop=(1, 0, 0, 0, 1, 0))
    P.case(scale_dataset, shape=(3, 2, 2), src=src, dst=None, nbit=8,
           minmax=None, skip=1, crop=(0, 1, 1, 0, 1, 0))
    P.case(scale_dataset, shape=(2, 2, 2), src=src, dst=None, nbit=8,
           minmax=None, skip=1, crop=(1, 0, 0, 1, 0, 0))
    P.case(scale_dataset, shape=(2, 2, 2), src=src, dst=None, nbit=8,
           minmax=(100, 5000), how='max', cell=(1, 2, 1), dtype='uint16')
    P.case(scale_dataset, shape=(2, 2, 2), src=src, dst=None, nbit=16,
           minmax=None, how='min', cell=(2, 1, 1), dtype='uint8')
    P.case(scale_dataset, shape=(2, 2, 2), src=src, dst=None, nbit=8,
           minmax=(100, 5000), dtype='uint16')
for how in (None, 'mean', 'median', 'max', 'min'):
    P.case(down, shape=(5, 5), cell=2, how=how)
    P.case(down, shape=(3, 7), cell=(1, 3), how=how)
P.case(scale, shape=(2, 2), nbit=8, minmax=(-1.0, 3.0))
P.case(scale, shape=(2, 3), nbit=16, minmax=(-1.0, 3.0))
P.case(scale, shape=(1, 3), nbit=8, minmax=None)
P.case(scale, shape=(1, 3), nbit=16, minmax=None)
P.case(scale, shape=(1, 2), nbit=8, minmax=None, sym=True)
P.case(scale, shape=(1, 3), nbit=16, minmax=(10, 200), dtype='uint8')
P.case(scale, shape=(1, 3), nbit=8, minmax=(10, 20000), dtype='uint16')
P.case(bad)
