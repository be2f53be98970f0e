"""Vertical slices straight from the projections."""
import math
import numpy as onp
from engine.registry import Prop
from props.common import linmap
from props.c14 import vbp
from props.c15 import ramp, smooth, kernel, neg_log, default_pad

P = Prop('C16', ['rec.vertrec.vertical_reconstruction',
                 'rec.vertrec.vertical_reconstruction_multiple',
                 'rec.vertrec.vertical_reconstruction_different_angles',
                 'rec.vertrec.find_center_vertical_slice',
                 'rec.vertrec.find_center_visual_vertical_slices'],
         'stacks of 2..6 projections of 1..3 x 4..7 pixels, all pixels '
         'symbolic; listed crops, projection ranges, chunk sizes, lines, '
         'centers, filters; GPU on and off',
         ['float32 rounding', 'GPU code runs on the CPU', 'the logarithm is '
          'an uninterpreted function of every pixel'],
         'larger stacks; projections read from a file')
VER = 'algotom.rec.vertrec'


def line(k, alpha, w):
    c = math.ceil(0.5 * (w - 1))
    al = math.radians(alpha)
    return ([(k - c) * math.sin(al) + t * math.cos(al)
             for t in range(-c, w - c)],
            [(c - k) * math.cos(al) + t * math.sin(al)
             for t in range(-c, w - c)])


def after(rows, pad, flt, mode):
    n = len(rows[0])

    def f(a):
        b = onp.pad(a, ((0, 0), (pad, pad)), mode=mode)
        w = b.shape[1]
        v = onp.abs(onp.fft.fftshift(onp.fft.fft(kernel(w)))
                    * smooth(flt, w))
        return onp.real(onp.fft.ifft(onp.fft.fft(b)
                                     * onp.fft.ifftshift(v)))[:, pad:pad + n]
    return linmap(f, rows, ('after', pad, flt, mode))


def expected(ctx, proj, k, center, alpha, angles, crop=(0, 0, 0, 0), start=0,
             stop=None, how='after', flt='hann', pad=None, mode='edge',
             log=True, mask=False):
    """One vertical slice; proj: normalised images as nested lists."""
    h, w = len(proj[0]), len(proj[0][0])
    t, b, le, r = crop
    proj = [[row[le:w - r] for row in p[t:h - b]] for p in proj[start:stop]]
    n = len(proj)
    h, w = len(proj[0]), len(proj[0][0])
    if pad is None:
        pad = default_pad(w)
    if angles is None:
        angles = [math.pi * i / (n - 1) for i in range(n)]
    proj = [neg_log(ctx, p, log) for p in proj]
    if how == 'before':
        proj = [ramp(p, pad, flt, mode) for p in proj]
    xs, ys = line(k, alpha, w)
    s = vbp(proj, angles, xs, ys, center, how != 'before')
    if how == 'after':
        s = after(s, pad, flt, mode)
    if mask:
        rad = int(min(center, w - center))
        left = (w - 2 * rad) // 2
        s = [[v if left <= j < left + 2 * rad else 0.0
              for j, v in enumerate(r)] for r in s]
    return [[v * (math.pi / (n - 1)) for v in r] for r in s]


def stack(ctx, shape, kind):
    if kind == 'any':
        return ctx.array('p', shape)
    p = ctx.array('p', shape, 0.001 if kind == 'holes' else 0.1, 4)
    if kind == 'holes':
        z = ctx.array('z', (2,), -1, 0)
        f = p.reshape(-1)
        f[2] = z[0]
        f[len(f) - 1] = z[1]
        p = f.reshape(shape)
    return p


def fields(h, w, kind):
    """Flat and dark fields (plain numbers)."""
    g = onp.random.RandomState(h * w)
    f = onp.round(2 + g.rand(h, w), 2)
    d = onp.round(0.05 * g.rand(h, w), 3)
    if kind == 'equal':
        f[0, 0] = d[0, 0]
    return (f if kind != 'dark' else None), (d if kind != 'flat' else None)


def single(ctx, shape, k, center, alpha=0.0, kind='pos', crop=(0, 0, 0, 0),
           start=0, stop=-1, angles=None, chunk=30, how='after', flt='hann',
           pad=None, mode='edge', gpu=False, mask=False, ff=None):
    m = ctx.mod(VER)
    np = ctx.np
    p = stack(ctx, shape, kind)
    keep = np.copy(p)
    log = kind != 'any'
    d, h, w = shape
    flat = dark = None
    cor = ctx.nested(p)
    if ff is not None:
        flat, dark = fields(h, w, ff)
        f = onp.ones((h, w)) if flat is None else flat
        q = onp.zeros((h, w)) if dark is None else dark
        e = f - q
        e[e == 0] = 1.0
        cor = [[[(cor[n][i][j] - float(q[i, j])) / float(e[i, j])
                 for j in range(w)] for i in range(h)] for n in range(d)]
        flat = None if flat is None else np.asarray(flat.tolist())
        dark = None if dark is None else np.asarray(dark.tolist())
    fk = None if flat is None else np.copy(flat)
    dk = None if dark is None else np.copy(dark)
    a = None if angles is None else np.asarray(list(angles))
    out = m.vertical_reconstruction(
        p, k, center, alpha=alpha, flat_field=flat, dark_field=dark,
        angles=a, crop=crop, proj_start=start, proj_stop=stop,
        chunk_size=chunk, ramp_filter=how, filter_name=flt, pad=pad,
        pad_mode=mode, apply_log=log, gpu=gpu, block=(4, 4), ncore=1,
        show_progress=False, masking=mask)
    ctx.equal('slice', out, expected(
        ctx, cor, k, center, alpha, angles, crop, start,
        None if stop == -1 else stop, how, flt, pad, mode, log, mask))
    ctx.equal('projections untouched', p, keep)
    if fk is not None:
        ctx.equal('flat untouched', flat, fk)
    if dk is not None:
        ctx.equal('dark untouched', dark, dk)


def several(ctx, shape, rng, center, alpha=0.0, kind='any', lines=None,
            gpu=False, **k):
    """Slices made together equal the slices made one by one."""
    m = ctx.mod(VER)
    np = ctx.np
    p = stack(ctx, shape, kind)
    keep = np.copy(p)
    d, h, w = shape
    opt = dict(k)
    ff = opt.pop('ff', None)
    if ff:
        f, q = fields(h, w, ff)
        opt.update(flat_field=None if f is None else np.asarray(f.tolist()),
                   dark_field=None if q is None else np.asarray(q.tolist()))
    if 'angles' in opt:
        opt['angles'] = np.asarray(list(opt['angles']))
    opt.update(gpu=gpu, apply_log=kind != 'any', show_progress=False)
    if lines is None:
        start, stop, step = rng
        lines = [(i, alpha) for i in range(start, stop + 1, step)]
        out = m.vertical_reconstruction_multiple(
            p, start, stop, center, alpha=alpha, step_index=step, **opt)
        if stop == shape[2] - 1 and 'crop' not in k:
            ctx.equal('up to the last', m.vertical_reconstruction_multiple(
                p, start, -1, center, alpha=alpha, step_index=step, **opt),
                out)
    else:
        out = m.vertical_reconstruction_different_angles(
            p, [q[0] for q in lines], [q[1] for q in lines], center, **opt)
    ctx.equal('count', len(out), len(lines))
    ctx.equal('projections untouched', p, keep)
    for o, (i, al) in zip(out, lines):
        ctx.equal('slice', o, m.vertical_reconstruction(
            np.copy(keep), i, center, alpha=al, **opt))


def bad(ctx):
    m = ctx.mod(VER)
    np = ctx.np
    p = ctx.array('p', (3, 2, 5), 0.5, 2)
    c = ctx.real('c', -9, 9)
    ctx.assume(ctx.any([c < 0, c > 4]))
    v, u, t = (m.vertical_reconstruction, m.vertical_reconstruction_multiple,
               m.vertical_reconstruction_different_angles)
    calls = [lambda **k: v(p, 2, k.pop('center', 2.0), **k),
             lambda **k: u(p, 1, 2, k.pop('center', 2.0), **k),
             lambda **k: t(p, [1, 2], [0.0, 30.0], k.pop('center', 2.0),
                           **k)]
    z = np.zeros((2, 4))
    for f in calls:
        for k in (dict(center=c), dict(ramp_filter='both'),
                  dict(proj_start=3), dict(proj_start=2, proj_stop=1),
                  dict(angles=np.zeros(2)), dict(crop=(1, 1, 0, 0)),
                  dict(crop=(0, 0, 3, 2)), dict(flat_field=z),
                  dict(dark_field=z)):
            ctx.raises('refused', ValueError, lambda: f(
                gpu=False, show_progress=False, **k))
    i = ctx.real('i', -9, 9)
    ctx.assume(ctx.any([i < 0, i > 4]))
    ctx.raises('index', ValueError, lambda: v(p, i, 2.0))
    ctx.raises('index', ValueError, lambda: u(p, i, 2, 2.0))
    ctx.raises('index', ValueError, lambda: t(p, [1, i], [0.0, 1.0], 2.0))
    ctx.raises('lengths', ValueError, lambda: t(p, [1, 2], [0.0], 2.0))
    ctx.raises('angle', ValueError, lambda: v(p, 2, 2.0, alpha=181.0))


def argmin(ctx, vals):
    """Index of the first smallest value, one path per answer."""
    b = 0
    for i in range(1, len(vals)):
        if vals[i] < vals[b]:
            ctx.assume(vals[b] - vals[i] > 1e-3)
            b = i
        else:
            ctx.assume(vals[i] - vals[b] > 1e-3)
    return b


def find_center(ctx, shape, k, start, stop, step, invert=False, mask=True,
                how='after', kind='any', alpha=0.0):
    """The center with the smallest metric over the listed candidates."""
    m = ctx.mod(VER)
    np = ctx.np
    p = stack(ctx, shape, kind)
    keep = np.copy(p)
    d, h, w = shape
    log = kind != 'any'
    got = []

    def metric(img, weight=1.0):
        r = ctx.nested(img)
        got.append(r)
        return sum(r[0][1:]) * weight - r[-1][0]
    c = list(onp.arange(start, stop + step, step))
    want = []
    rad = int(min(c[0], w - c[0]))
    left = (w - 2 * rad) // 2
    for q in c:
        s = expected(ctx, ctx.nested(keep), k, q, alpha, None, how=how,
                     log=log)
        if mask:
            s = [[v if left <= j < left + 2 * rad else 0.0
                  for j, v in enumerate(r)] for r in s]
        want.append(s)
    vals = [sum(s[0][1:]) * 2.0 - s[-1][0] for s in want]
    opt = dict(step=step, alpha=alpha, metric_function=metric, sigma=0,
               apply_log=log, gpu=False, show_progress=False, masking=mask,
               invert_metric=invert, ramp_filter=how, weight=2.0, ncore=1)
    lc, lm = m.find_center_vertical_slice(p, k, start, stop,
                                          return_metric=True, **opt)
    ctx.equal('candidates', lc, c)
    ctx.equal('slices', got, want)
    if invert:
        t = vals[0]
        for v in vals:
            t = ctx.max(t, v)
        vals = [t - v for v in vals]
    ctx.equal('metric', lm, vals)
    ctx.equal('projections untouched', p, keep)
    b = argmin(ctx, vals)
    ctx.equal('center', m.find_center_vertical_slice(p, k, start, stop,
                                                     **opt), c[b])


def visual(ctx, shape, k, start, stop, step, kind='any', mask=True):
    """One image per candidate center."""
    import os
    m = ctx.mod(VER)
    np = ctx.np
    p = stack(ctx, shape, kind)
    keep = np.copy(p)
    d, h, w = shape
    base = ctx.tmp()
    out = m.find_center_visual_vertical_slices(
        p, base, k, start, stop, step=step, apply_log=kind != 'any',
        gpu=False, display=False, masking=mask, ncore=1)
    c = list(onp.arange(start, stop + step, step))
    names = sorted('center_%.2f.tif' % q for q in c)
    ctx.equal('files', sorted(os.listdir(out)), names)
    rad = int(min(c[0], w - c[0]))
    left = (w - 2 * rad) // 2
    for q in c:
        s = expected(ctx, ctx.nested(keep), k, q, 0.0, None,
                     log=kind != 'any')
        if mask:
            s = [[v if left <= j < left + 2 * rad else 0.0
                  for j, v in enumerate(r)] for r in s]
        ctx.equal('image', ctx.get_image(os.path.join(
            out, 'center_%.2f.tif' % q)), s)
    ctx.equal('projections untouched', p, keep)


A4 = (0.13, 0.9, 1.77, 2.6)
for how in ('after', 'before', None):
    P.case(single, shape=(4, 2, 5), k=1, center=1.83, kind='any', how=how,
           angles=A4)
    P.case(single, shape=(5, 2, 4), k=3, center=1.37, kind='pos', how=how,
           chunk=2, gpu=True, alpha=30.0)
    P.case(single, shape=(6, 3, 6), k=1, center=1.73, kind='any', how=how,
           crop=(1, 0, 1, 1), start=1, stop=5, chunk=3, angles=A4)
    P.case(several, shape=(4, 2, 5), rng=(0, 4, 2), center=1.83,
           ramp_filter=how, chunk_size=3)
    P.case(several, shape=(4, 2, 5), rng=None, center=1.83, gpu=True,
           lines=((1, 0.0), (3, 70.0), (4, 150.0)), ramp_filter=how,
           chunk_size=2)
P.case(single, shape=(3, 2, 5), k=2, center=2.2, kind='holes', chunk=2)
P.case(single, shape=(3, 2, 5), k=2, center=2.2, kind='holes', chunk=1,
       how='before', pad=2, mode='mean', flt='hamming')
P.case(single, shape=(4, 2, 5), k=0, center=1.2, kind='any', mask=True,
       chunk=None)
P.case(single, shape=(4, 1, 6), k=0, center=3.7, kind='any', mask=True,
       pad=3, flt=None, mode='mean')
for ff in ('both', 'equal', 'flat', 'dark'):
    P.case(single, shape=(3, 3, 5), k=2, center=1.7, kind='any', ff=ff,
           crop=(0, 1, 0, 1), chunk=2)
P.case(single, shape=(3, 2, 5), k=2, center=1.7, kind='pos', ff='both')
P.case(several, shape=(5, 3, 6), rng=(1, 3, 1), center=1.83, alpha=20.0,
       crop=(1, 0, 1, 1), proj_start=1, proj_stop=5, angles=A4, ff='both',
       masking=True)
P.case(several, shape=(5, 3, 6), rng=None, center=1.83,
       lines=((0, 20.0), (2, 100.0)), crop=(1, 0, 1, 1), proj_start=1,
       proj_stop=5, angles=A4, ff='both', masking=True)
for n in (2, 3):
    P.case(several, shape=(6, 2, 4), rng=(0, 2, 2), center=1.3, gpu=n == 2,
           chunk_size=n, proj_start=2, proj_stop=6 if n == 3 else 5,
           angles=A4[:n + 1])
    P.case(several, shape=(6, 2, 4), rng=None, center=1.3, gpu=n == 3,
           lines=((0, 20.0), (2, 100.0)), chunk_size=n, proj_start=2,
           proj_stop=6 if n == 3 else 5, angles=A4[:n + 1])
P.case(several, shape=(3, 2, 4), rng=(0, 3, 3), center=1.3, kind='holes',
       chunk_size=2)
P.case(several, shape=(3, 2, 4), rng=None, center=1.3, kind='holes',
       lines=((0, 20.0), (2, 100.0)), chunk_size=2)
for ff in ('flat', 'dark', 'equal'):
    P.case(several, shape=(3, 2, 4), rng=(0, 2, 2), center=1.3, ff=ff,
           crop=(0, 0, 1, 0) if ff == 'flat' else (0, 0, 0, 1), chunk_size=2)
    P.case(several, shape=(3, 2, 4), rng=None, center=1.3, ff=ff,
           crop=(0, 0, 1, 0) if ff == 'flat' else (0, 0, 0, 1), chunk_size=2,
           lines=((0, 20.0), (1, 100.0)))
for how in ('after', 'before', None):
    P.case(several, shape=(5, 2, 4), rng=None, center=1.3, chunk_size=3,
           lines=((0, 20.0), (2, 100.0)), ramp_filter=how)
P.case(bad)
P.case(find_center, shape=(3, 2, 5), k=2, start=1.25, stop=2.25, step=0.5)
P.case(find_center, shape=(3, 2, 5), k=1, start=1.75, stop=2.75, step=1.0,
       invert=True, mask=False, how='before', alpha=15.0)
P.case(find_center, shape=(3, 2, 5), k=1, start=1.75, stop=2.75, step=1.0,
       kind='holes')
P.case(find_center, shape=(3, 2, 5), k=2, start=1, stop=2, step=1)
P.case(find_center, shape=(3, 2, 5), k=2, start=2, stop=3, step=1,
       kind='pos', invert=True)
P.case(visual, shape=(3, 2, 5), k=2, start=1.25, stop=2.25, step=0.5)
P.case(visual, shape=(3, 2, 5), k=2, start=1.25, stop=2.25, step=0.5,
       kind='holes', mask=False)
P.case(single, shape=(6, 3, 7), k=2, center=2.83, kind='pos', chunk=4,
       tier='thorough')
P.case(several, shape=(6, 3, 7), rng=(0, 6, 2), center=2.83, kind='pos',
       chunk_size=4, tier='thorough')
