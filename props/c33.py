"""Centre searches by reconstructed slices, and by eye."""
import inspect
import math
import os
import numpy as onp
import scipy.ndimage as ndi
from engine.registry import Prop
from props.common import linmap

P = Prop('C33', ['rec.reconstruction.find_center_based_slice_metric',
                 'rec.reconstruction._find_center_based_slice_metric',
                 'rec.reconstruction.find_center_visual_slices',
                 'rec.reconstruction._reconstruct_slice',
                 'util.utility.find_center_visual_sinograms'],
         'sinograms of 4..10 x 8..24 pixels, true centre any number in the '
         'range searched, any metric that grows with the distance from it, '
         'images of any gain for the built-in metrics; all pixels symbolic '
         'for sinograms to be looked at', [
             'float rounding', 'the reconstruction is stood in by images '
             'that depend on the centre (decided by C15, C16)'],
         'whether a metric has its minimum at the true centre')
RE, UT, LS = ('algotom.rec.reconstruction', 'algotom.util.utility',
              'algotom.io.loadersaver')
NAMES = {'fbp': 'fbp_reconstruction', 'bpf': 'bpf_reconstruction',
         'dfi': 'dfi_reconstruction', 'astra': 'astra_reconstruction',
         'gridrec': 'gridrec_reconstruction'}


class Slices:
    """Every reconstruction method gives image(sinogram, centre)."""

    def __init__(self, ctx, m, image):
        self.ctx, self.m, self.image = ctx, m, image
        self.calls = []

    def __enter__(self):
        self.real = {k: getattr(self.m, v) for k, v in NAMES.items()}
        for k, v in NAMES.items():
            setattr(self.m, v, self.stand(k))
        return self

    def __exit__(self, *a):
        for k, v in NAMES.items():
            setattr(self.m, v, self.real[k])

    def stand(self, kind):
        sig = inspect.signature(self.real[kind])

        def run(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.calls.append((kind, dict(b.arguments)))
            return self.image(b.arguments['sinogram'],
                              b.arguments['center'])
        return run


def table(h, w):
    return [[1.0 + (3 * i + 7 * j) % 11 for j in range(w)] for i in range(h)]


def flat(ctx):
    """Image that tells the centre it was made with."""
    return lambda s, c: ctx.np.ones((s.shape[1],) * 2) * c


def search(ctx, h, w, start, stop, step, zoom=1.0, invert=False, scale=None,
           lo=None, hi=None, angles=False, **k):
    """Half a step from the true centre at most."""
    m = ctx.mod(RE)
    np = ctx.np
    t = ctx.real('true', start if lo is None else lo,
                 stop if hi is None else hi)
    sino = np.asarray(table(h, w))
    keep = np.copy(sino)
    args = []

    def metric(img, **kw):
        args.append(kw)
        z = (img.shape[0] - 1) / (w - 1)
        v = abs(img[0, 0] - t * z)
        return 9.0 - v if invert else v
    if scale is not None:
        k['scale'] = scale
    if angles:
        k['angles'] = np.asarray([0.1 * i for i in range(h)])
    with Slices(ctx, m, flat(ctx)) as s:
        got = m.find_center_based_slice_metric(
            sino, start, stop, step=step, zoom=zoom, metric_function=metric,
            invert_metric=invert, **k)
    for kind, a in s.calls:
        ctx.check('method', kind == k.get('method', 'fbp'))
        if angles:
            ctx.check('one angle per row', len(a['angles']) ==
                      a['sinogram'].shape[0])
        else:
            ctx.check('no angles', a['angles'] is None)
    ctx.check('options of the metric', all(
        v == ({} if scale is None else {'scale': scale}) for v in args))
    ctx.check('centre', abs(got - t) <= step / 2 + 1e-6)
    ctx.equal('input untouched', sino, keep)


def rough(ctx, w, start, stop):
    """No second search: the best whole column."""
    m = ctx.mod(RE)
    t = ctx.real('true', start, stop)
    with Slices(ctx, m, flat(ctx)):
        got = m.find_center_based_slice_metric(
            ctx.np.asarray(table(4, w)), start, stop, radius=0.0,
            metric_function=lambda i: abs(i[0, 0] - t))
    ctx.check('centre', abs(got - t) <= 0.5 + 1e-6)


def options(ctx, method, gpu, ratio, win, log, ncore, sigma):
    """What the reconstruction is given."""
    m = ctx.mod(RE)
    np = ctx.np
    a = ctx.array('a', (4, 8), 0.5, 3)
    keep = np.copy(a)
    if log:
        a[1, 3] = 0.0
        a[2, 5] = -2.0
        keep = np.copy(a)
    if sigma:
        b = linmap(lambda q: ndi.gaussian_filter1d(q, sigma, axis=1),
                   ctx.nested(a))
    else:
        b = ctx.nested(a)
    gpu = gpu and bool(m.cuda.is_available())
    with Slices(ctx, m, flat(ctx)) as s:
        m.find_center_based_slice_metric(
            a, 3, 4, step=1, radius=1, method=method, gpu=gpu, ratio=ratio,
            filter_name=win, apply_log=log, ncore=ncore, sigma=sigma,
            metric_function=lambda i: abs(i[0, 0] - 3.4))
    ctx.check('searched', len(s.calls) > 3)
    for kind, k in s.calls:
        ctx.check('method', kind == (method if method in NAMES else 'dfi'))
        ctx.check('ratio', k['ratio'] == ratio)
        ctx.check('filter', k['filter_name'] == win)
        if kind == 'astra':
            ctx.check('gpu', k['method'] == 'FBP' + '_CUDA' * gpu)
        elif 'gpu' in k:
            ctx.check('gpu', bool(k['gpu']) == gpu)
        ctx.check('logarithm once', not (log and k['apply_log']))
    if log:
        ln = np.log
        want = [[-ln(ctx.ite(v > 0.0, v, 1.0)) for v in r] for r in b]
    else:
        want = b
    ctx.equal('sinogram', s.calls[0][1]['sinogram'], want)
    ctx.equal('sinogram', s.calls[-1][1]['sinogram'], want)
    ctx.equal('input untouched', a, keep)


def pattern(c, n):
    """Images of different contrast and detail."""
    r = onp.random.RandomState(int(round(c * 4)))
    f = r.randint(0, 12, (n, n)) * 1.0
    f[: 1 + int(round(c * 4)) % 4] *= 0.25
    return f + 1.0


def entropy(img, lo, hi):
    q = onp.clip((img - lo) / (hi - lo), 0, 1)
    q = onp.uint8(q * 255)
    h = 1.0 + onp.asarray([(q == v).sum() for v in range(256)])
    h = onp.convolve(h, onp.ones(7), 'valid')
    return -(h * onp.log2(h)).sum()


def sharp(img):
    y, x = onp.gradient(img)
    return onp.sqrt(x * x + y * y).mean()


def builtin(ctx, metric, start, stop, step, invert, n=8):
    """The documented metrics of the images, whatever their gain."""
    m = ctx.mod(RE)
    np = ctx.np
    ctx.single_bounds()
    g = ctx.real('g', 0.5, 3)

    def image(s, c):
        return np.asarray([[v * g for v in r]
                           for r in pattern(float(c), n).tolist()])
    k = {} if metric is None else {'metric': metric}
    with Slices(ctx, m, image):
        got = m.find_center_based_slice_metric(
            np.asarray(table(4, 12)), start, stop, step=step, radius=1,
            apply_log=False, invert_metric=invert, **k)

    def best(cs):
        mid = pattern(sum(cs) / len(cs), n)
        v = [sharp(pattern(c, n)) if metric == 'sharpness' else
             entropy(pattern(c, n), mid.min(), mid.max()) for c in cs]
        return cs[v.index(max(v) if invert else min(v))]
    c = best([start + i for i in range(int(stop - start) + 1)])
    r = max(1, step + 1)
    want = best([c - r + i * step for i in range(int(round(2 * r / step)) +
                                                 1)])
    ctx.equal('centre', [got], [want], tol=1e-6)


def empty(ctx):
    m = ctx.mod(RE)
    np = ctx.np
    a = np.asarray(table(4, 8))
    with Slices(ctx, m, lambda s, c: np.ones((4, 4))):
        ctx.raises('flat image', ValueError,
                   lambda: m.find_center_based_slice_metric(a, 2, 4))
    with Slices(ctx, m, flat(ctx)):
        ctx.raises('no step', Exception,
                   lambda: m.find_center_based_slice_metric(
                       a, 2, 2, step=-1.0,
                       metric_function=lambda i: 0.0))


def listed(start, stop, step, w):
    """start, ..., stop; nothing at or beyond the last column."""
    n = int(math.floor((stop - start) / step + 1e-9))
    return [start + i * step for i in range(n + 1)
            if start + i * step < w - 1 - 1e-9]


def files(ctx, folder):
    """Images by the centre in their name."""
    f = ctx.mod(LS).find_file(os.path.join(folder, '*.tif'))
    return {round(float(os.path.basename(p)[len('center_'):-4]), 2): p
            for p in f}


def slices(ctx, h, w, start, stop, step, zoom, method='fbp', log=False,
           angles=False):
    """One image per centre, named after it; never in a folder that is
    there already."""
    m = ctx.mod(RE)
    np = ctx.np
    base = ctx.tmp()
    g = ctx.real('g', 0.5, 3)
    a = np.asarray([[v * g for v in r] for r in table(h, w)])
    keep = np.copy(a)
    k = {}
    if angles:
        k['angles'] = np.asarray([0.1 * i for i in range(h)])
    with Slices(ctx, m, lambda s, c: np.ones((s.shape[1],) * 2) * (c * g)) \
            as s:
        out = m.find_center_visual_slices(
            a, base, start, stop, step=step, zoom=zoom, method=method,
            apply_log=log, filter_name='hamming', ratio=0.9, **k)
        again = m.find_center_visual_slices(a, base, start, start,
                                            method=method)
    got = files(ctx, out)
    want = listed(start, stop, step, w)
    ctx.check('one image per centre', sorted(got) ==
              [round(v, 2) for v in want])
    n = int(round(w * zoom))
    for v in want:
        img = ctx.nested(ctx.get_image(got[round(v, 2)]))
        ctx.check('size', len(img) == n and len(img[0]) == n)
        ctx.equal('image', [img[0][0], img[-1][-1]], [g * (v * zoom)] * 2)
    ref = ndi.zoom(onp.asarray(table(h, w)), zoom, order=1, mode='nearest') \
        if zoom != 1.0 else onp.asarray(table(h, w))
    for kind, q in s.calls[:len(want)]:
        ctx.check('method', kind == method)
        ctx.check('options', q['filter_name'] == 'hamming' and
                  q['ratio'] == 0.9 and bool(q['apply_log']) == log)
        ctx.equal('sinogram', q['sinogram'], [[v * g for v in r]
                                              for r in ref.tolist()])
        if angles:
            ctx.check('one angle per row', len(q['angles']) == len(ref))
            ctx.equal('angles', q['angles'], (
                onp.linspace(0, 0.1 * (h - 1), len(ref))).tolist(), tol=0.02)
    ctx.check('other folder', os.path.normpath(again) !=
              os.path.normpath(out))
    ctx.equal('input untouched', a, keep)


def sinograms(ctx, h, w, start, stop, step, zoom=1.0):
    """The sinogram above itself flipped about each centre."""
    m = ctx.mod(UT)
    np = ctx.np
    base = ctx.tmp()
    a = ctx.array('a', (h, w), 0, 2)
    keep = np.copy(a)
    k = {} if zoom == 1.0 else {'zoom': zoom}
    out = m.find_center_visual_sinograms(a, base, start, stop, step=step,
                                         **k)
    got = files(ctx, out)
    want = listed(start, stop, step, w)
    ctx.check('one image per centre', sorted(got) ==
              [round(v, 2) for v in want])
    for v in want:
        def f(q):
            low = ndi.shift(q[:, ::-1], (0, 2 * v - (w - 1)), order=3,
                            prefilter=False, mode='nearest')
            r = onp.vstack((q, low))
            return ndi.zoom(r, zoom, mode='nearest') if zoom != 1.0 else r
        ctx.equal('image', ctx.get_image(got[round(v, 2)]),
                  linmap(f, ctx.nested(a)))
    again = m.find_center_visual_sinograms(a, base, start, start)
    ctx.check('other folder', again != out)
    ctx.equal('input untouched', a, keep)


for h, w, a, b, step, k in (
        (6, 16, 5, 9, 0.5, {}), (6, 16, 5, 9, 0.25, {'radius': 1}),
        (6, 16, 5, 9, 0.5, {'invert': True, 'radius': 2}),
        (6, 16, 5, 8, 1.0, {'scale': 3, 'method': 'dfi'}),
        (6, 16, 5, 8, 0.5, {'method': 'bpf', 'ncore': 1}),
        (8, 20, 8, 12, 0.5, {'zoom': 0.5}),
        (8, 20, 8, 12, 0.5, {'zoom': 0.5, 'angles': True}),
        (10, 24, 8, 14, 1.0, {'zoom': 0.3, 'radius': 1, 'angles': True,
                              'method': 'gridrec'}),
        (6, 16, 7, 7, 0.5, {'lo': 6, 'hi': 8, 'method': 'astra'})):
    P.case(search, h=h, w=w, start=a, stop=b, step=step, **k)
P.case(rough, w=16, start=5, stop=9)
for method, log, ncore, sigma in (('fbp', True, 1, 0), ('fbp', False, 2, 1),
                                  ('dfi', False, 2, 0), ('bpf', True, 3, 0),
                                  ('astra', False, None, 2),
                                  ('astra', False, 1, 0),
                                  ('gridrec', False, 1, 0)):
    P.case(options, method=method, gpu=ncore != 1, ratio=0.8, win='hamming',
           log=log, ncore=ncore, sigma=sigma)
for metric in (None, 'entropy', 'sharpness'):
    for inv in (False, True):
        P.case(builtin, metric=metric, start=4, stop=7, step=0.5, invert=inv)
P.case(empty)
for h, w, a, b, step, zoom, k in (
        (6, 12, 4, 7, 1, 1.0, {}), (6, 12, 4, 7, 1, 0.5, {'log': True}),
        (6, 12, 4.5, 6, 0.25, 0.5, {'angles': True, 'method': 'dfi'}),
        (8, 12, 8, 14, 1, 1.0, {'method': 'gridrec'}),
        (6, 12, 5, 5, 1, 0.5, {'method': 'bpf'})):
    P.case(slices, h=h, w=w, start=a, stop=b, step=step, zoom=zoom, **k)
for h, w, a, b, step, k in ((3, 7, 2, 4, 1, {}), (2, 6, 2, 3, 0.5, {}),
                            (3, 6, 1, 9, 1, {}),
                            (4, 6, 2, 3, 0.25, {'zoom': 0.5})):
    P.case(sinograms, h=h, w=w, start=a, stop=b, step=step, **k)
