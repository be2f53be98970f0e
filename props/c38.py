"""Raw images of integers are worth the numbers they hold."""
import os
import numpy as onp
from engine.registry import Prop

P = Prop('C38', ['prep.conversion.stitch_image', 'prep.conversion.join_image',
                 'prep.conversion.convert_sinogram_360_to_180',
                 'prep.conversion.extend_sinogram',
                 'prep.conversion.generate_sinogram_helical_scan',
                 'prep.conversion.generate_full_sinogram_helical_scan',
                 'prep.correction.flat_field_correction',
                 'prep.calculation.complex_gradient',
                 'rec.vertrec.vertical_reconstruction',
                 'rec.vertrec.vertical_reconstruction_multiple',
                 'rec.vertrec.vertical_reconstruction_different_angles',
                 'rec.reconstruction.fbp_reconstruction',
                 'rec.reconstruction.dfi_reconstruction',
                 'io.loadersaver.get_image_stack',
                 'io.loadersaver.get_tif_stack',
                 'io.loadersaver.get_reference_sample_stacks',
                 'io.loadersaver.get_reference_sample_stacks_dls',
                 'util.utility.separate_frequency_component',
                 'util.utility.apply_regularization_filter',
                 'util.correlation.find_local_shifts_umpa',
                 'prep.phase.get_transmission_dark_field_signal'],
         'images of 2..12 pixels of 8, 16 or 32 bits, with or without sign, '
         'any grey levels within listed limits on both sides of those of the '
         'dark-field',
         ['float32 rounding', 'compiled and GPU functions promote integers '
          'to wide signed ones'],
         'results that are images of integers themselves are compared up to '
         'rounding to whole grey levels')
CON = 'algotom.prep.conversion'
COR = 'algotom.prep.correction'
CAL = 'algotom.prep.calculation'
REM = 'algotom.prep.removal'
PHA = 'algotom.prep.phase'
VER = 'algotom.rec.vertrec'
REC = 'algotom.rec.reconstruction'
LOS = 'algotom.io.loadersaver'
UTI = 'algotom.util.utility'
CO = 'algotom.util.correlation'
KINDS = ('uint16', 'uint8', 'int16', 'uint16')


def flatten(ctx, v):
    if isinstance(v, (tuple, list)):
        return [u for x in v for u in flatten(ctx, x)]
    if hasattr(v, 'shape') and tuple(v.shape) != ():
        return flatten(ctx, ctx.nested(v))
    return [v]


def same(ctx, fn, imgs, tol=2e-3):
    """fn gives the same for integers and for their values; nothing passed in
    changes."""
    keep = [ctx.np.copy(a) for a in imgs]
    want = fn(*[a.astype(ctx.np.float64) for a in imgs])
    got = fn(*imgs)
    p, q = flatten(ctx, got), flatten(ctx, want)
    ctx.check('size of the result', len(p) == len(q))
    ctx.equal('the values count', p, q, tol=tol)
    for a, b in zip(imgs, keep):
        ctx.equal('input untouched', a, b)


def img(ctx, name, shape, lo, hi, kind='uint16'):
    return ctx.array(name, shape, lo, hi, dtype=kind)


def stitch(ctx, side, ov, norm, kind):
    m = ctx.mod(CON)
    lo = 1 if norm else 0
    a, b = img(ctx, 'a', (2, 5), lo, 200, kind), img(ctx, 'b', (2, 6), lo,
                                                      200, kind)
    same(ctx, lambda x, y: m.stitch_image(x, y, ov, side, norm=norm), [a, b])


def stitch_weights(ctx, side, kind):
    m = ctx.mod(CON)
    a, b = img(ctx, 'a', (2, 5), 0, 200, kind), img(ctx, 'b', (2, 6), 0, 200,
                                                     kind)
    same(ctx, lambda x, y: m.make_weight_matrix(x, y, 4, side), [a, b])
    wa, wb = ctx.array('wa', (2, 5), 0, 1), ctx.array('wb', (2, 6), 0, 1)
    same(ctx, lambda x, y: m.stitch_image(x, y, 3, side, wa, wb, norm=False),
         [a, b])


def stitch_many(ctx, kind):
    m = ctx.mod(CON)
    v = [img(ctx, 'a%d' % i, (2, 6), 0, 200, kind) for i in range(3)]
    same(ctx, lambda *x: m.stitch_image_multiple(
        list(x), [[3, 1], [2, 0]], norm=False), v)
    same(ctx, lambda *x: m.join_image_multiple(
        list(x), [[1, 1], [2, 0]], norm=False), v)


def join(ctx, side, norm, kind, width=2):
    m = ctx.mod(CON)
    lo = 1 if norm else 0
    a, b = img(ctx, 'a', (2, 7), lo, 200, kind), img(ctx, 'b', (2, 8), lo,
                                                      200, kind)
    same(ctx, lambda x, y: m.join_image(x, y, width, side, norm=norm),
         [a, b])


def half_turn(ctx, cor, kind):
    m = ctx.mod(CON)
    a = img(ctx, 'a', (5, 7), 0, 200, kind)
    same(ctx, lambda x: m.convert_sinogram_360_to_180(x, cor, norm=False),
         [a])
    same(ctx, lambda x: m.convert_sinogram_180_to_360(x, 3.0), [a])
    same(ctx, lambda x: m.convert_sinogram_180_to_360(x, cor), [a])
    same(ctx, lambda x: m.extend_sinogram(x, cor, apply_log=False), [a])


def helix(ctx, full, kind, scan='180'):
    m = ctx.mod(CON)
    d = img(ctx, 'd', (16, 4, 2), 0, 20, kind)
    f = img(ctx, 'f', (4, 2), 15, 30, kind)
    k = img(ctx, 'k', (4, 2), 0, 10, kind)
    fn = (m.generate_full_sinogram_helical_scan if full
          else m.generate_sinogram_helical_scan)
    same(ctx, lambda x, y, z: fn(3, x, 3, 1.0, 0.0, 7.5, 2.0, scan,
                                 flat=y, dark=z), [d, f, k])
    same(ctx, lambda x: fn(2, x, 3, 1.0, 0.0, 7.5, 2.0, scan), [d])


def transmission(ctx, kind, below=False, **opt):
    m = ctx.mod(COR)
    p = img(ctx, 'p', (2, 2, 3), 0, 20, kind)
    f = img(ctx, 'f', (2, 3), 0 if below else 15, 8 if below else 30, kind)
    k = img(ctx, 'k', (2, 3), 9 if below else 0, 10, kind)
    same(ctx, lambda x, y, z: m.flat_field_correction(x, y, z, **opt),
         [p, f, k])


def vertical(ctx, kind, ramp, what='one', fields=3, log=False, chunk=2,
             gpu=False):
    """Grey levels below the dark-field are negative numbers."""
    m = ctx.mod(VER)
    p = img(ctx, 'p', (3, 2, 4), 12 if log else 0, 20, kind)
    v = [p]
    if fields & 1:
        v.append(img(ctx, 'f', (2, 4), 15, 30, kind))
    if fields & 2:
        v.append(img(ctx, 'k', (2, 4), 0, 10, kind))

    def fn(x, *y):
        y = list(y)
        kw = dict(gpu=gpu, ncore=1, chunk_size=chunk, ramp_filter=ramp,
                  apply_log=log, show_progress=False, pad=2, prefer='threads')
        kw['flat_field'] = y.pop(0) if fields & 1 else None
        kw['dark_field'] = y.pop(0) if fields & 2 else None
        if what == 'one':
            return m.vertical_reconstruction(x, 1, 1.5, **kw)
        if what == 'several':
            return m.vertical_reconstruction_multiple(x, 1, 2, 1.5, **kw)
        return m.vertical_reconstruction_different_angles(
            x, [1, 2], [0.0, 30.0], 1.5, **kw)
    same(ctx, fn, v)


def stack(ctx, src, kind, fields, idx=1, average=False):
    m = ctx.mod(LOS)
    n, h, w = 2, 2, 3
    ims = [img(ctx, 'a%d' % q, (n, h, w), 0, 20, kind) for q in range(2)]
    v = []
    if fields & 1:
        v.append(img(ctx, 'f', (h, w), 15, 30, kind))
    if fields & 2:
        v.append(img(ctx, 'k', (h, w), 0, 10, kind))
    base = ctx.tmp()
    num = [0]

    def fn(*v):
        v = list(v)
        a, v = v[:2], v[2:]
        kw = dict(flat_field=v.pop(0) if fields & 1 else None)
        kw['dark_field'] = v.pop(0) if fields & 2 else None
        paths = []
        num[0] += 1
        for q, x in enumerate(a):
            p = os.path.join(base, 'd%d_%d' % (num[0], q))
            if src[0] == 't':
                for i in range(n):
                    y = x[i]
                    if str(y.dtype) == 'float64':
                        y = y.astype(ctx.np.float32)
                    ctx.put_image('%s/img_%d.tif' % (p, i), y)
            else:
                p += '.hdf'
                d = {'e/d': x}
                if src == 'dls':
                    d = {'entry/data/data': x, 'entry/image_key':
                         ctx.np.asarray([1.0, 0.0])}
                ctx.put_hdf(p, d)
            paths.append(p)
        if src == 'tif':
            return m.get_tif_stack(paths[0], idx=idx, **kw)
        if src == 'ref':
            return m.get_reference_sample_stacks(
                idx, paths[:1], paths[1:], 'e/d', 'e/d', **kw)
        if src == 'dls':
            return m.get_reference_sample_stacks_dls(
                0, paths, data_key='entry/data/data',
                image_key='entry/image_key', **kw)
        return m.get_image_stack(idx, paths, data_key='e/d', average=average,
                                 **kw)
    same(ctx, fn, ims + v)


def stripes(ctx, meth, args, shape, kind, lo=0, **opt):
    m = ctx.mod(REM)
    a = img(ctx, 'a', shape, lo, 200, kind)
    same(ctx, lambda x: getattr(m, meth)(x, *args, **opt), [a])


def blob(ctx, kind):
    m = ctx.mod(REM)
    a = img(ctx, 'a', (2, 8), 0, 200, kind)
    k = ctx.np.asarray([[0.0, 0, 0, 1, 1, 0, 0, 0], [0, 0, 1, 1, 0, 0, 0, 0]])
    same(ctx, lambda x: m.remove_blob(x, k), [a], tol=2.1)


def gradient(ctx, kind):
    m = ctx.mod(CAL)
    a = img(ctx, 'a', (6, 7), 0, 200, kind)

    def fn(x):
        g = m.complex_gradient(x)
        return ctx.np.real(g), ctx.np.imag(g)
    same(ctx, fn, [a])


def frequencies(ctx, kind, axis):
    m = ctx.mod(UTI)
    a = img(ctx, 'a', (4, 5), 0, 200, kind)
    same(ctx, lambda x: m.separate_frequency_component(
        x, axis, {'name': 'gaussian', 'sigma': 2}), [a])


def regular(ctx, kind, axis):
    m = ctx.mod(UTI)
    a = img(ctx, 'a', (4, 5), 0, 200, kind)
    same(ctx, lambda x: m.apply_regularization_filter(x, 0.05, axis, 1), [a])
    same(ctx, lambda x: m.apply_1d_regularizer(
        x[0], ctx.np.eye(5) * 0.25), [a])


def recon(ctx, kind, shape, how, turn=180.0, ncore=1):
    m = ctx.mod(REC)
    a = img(ctx, 'a', shape, 0, 200, kind)
    t = ctx.np.deg2rad(ctx.np.linspace(0.0, turn, shape[0]))
    if how == 'fbp':
        same(ctx, lambda x: m.fbp_reconstruction(
            x, 1.8, angles=t, apply_log=False, gpu=False, ncore=ncore), [a],
            tol=2e-2)
    else:
        same(ctx, lambda x: m.dfi_reconstruction(
            x, 1.8, angles=t, apply_log=False), [a], tol=2e-2)


T = onp.random.RandomState(5).randint(20, 200, (3, 20, 20))


def texture(ctx, n, h, w, dy, dx, gain, kind):
    """Speckles and moved ones, with a pixel of any value."""
    ref = T[:n, 6:6 + h, 6:6 + w]
    sam = T[:n, 6 + dy:6 + dy + h, 6 + dx:6 + dx + w] * gain
    g = ctx.int('g', 0, 9)
    for k in range(9):           # one path per value
        if g == k:
            break
    out = []
    for a, e in ((ref, 0), (sam, g)):
        v = [[[int(p) for p in r] for r in q] for q in a.tolist()]
        v[0][h // 2][w // 2] = v[0][h // 2][w // 2] + int(e)
        out.append(ctx.np.asarray(v, dtype=kind))
    return out


def umpa(ctx, kind, dark, gain, gpu=False):
    m = ctx.mod(CO)
    a, b = texture(ctx, 2, 6, 7, 0, 1, gain, kind)
    same(ctx, lambda x, y: m.find_local_shifts_umpa(
        x, y, win_size=3, margin=1, gpu=gpu, ncore=1, dark_signal=dark),
        [a, b], tol=5e-3)


def local(ctx, kind, dim, gain, norm=True):
    m = ctx.mod(CO)
    a, b = texture(ctx, 2, 6, 7, 0, 1, gain, kind)
    same(ctx, lambda x, y: m.find_local_shifts(
        x, y, win_size=3, margin=1, gpu=False, ncore=1, dim=dim, norm=norm),
        [a, b], tol=5e-3)


def signals(ctx, kind):
    m = ctx.mod(PHA)
    a, b = texture(ctx, 2, 7, 7, 0, 1, 1, kind)
    z = ctx.np.asarray([[0.0] * 7] * 7)
    o = ctx.np.asarray([[1.0] * 7] * 7)
    same(ctx, lambda x, y: m.get_transmission_dark_field_signal(
        x, y, o, z, 3, margin=2, ncore=1), [a, b], tol=5e-3)


for i, side in enumerate((0, 1)):
    for norm in (False, True):
        P.case(stitch, side=side, ov=3, norm=norm, kind=KINDS[i])
        P.case(join, side=side, norm=norm, kind=KINDS[i + 1])
    P.case(stitch_weights, side=side, kind=KINDS[i])
    P.case(frequencies, kind=KINDS[i], axis=i)
    P.case(regular, kind=KINDS[i], axis=i)
P.case(stitch, side=1, ov=2.5, norm=False, kind='uint16')
P.case(stitch, side=0, ov=3.5, norm=False, kind='uint8')
P.case(join, side=1, norm=False, kind='uint8', width=2.5)
P.case(join, side=0, norm=False, kind='uint16', width=3.25)
P.case(recon, kind='uint16', shape=(4, 2, 5), how='fbp')
P.case(recon, kind='uint8', shape=(4, 5), how='fbp')
P.case(recon, kind='uint16', shape=(4, 5), how='dfi')
P.case(recon, kind='uint8', shape=(4, 2, 5), how='dfi')
P.case(recon, kind='uint8', shape=(5, 5), how='dfi', turn=360.0)
P.case(stitch_many, kind='uint16')
for cor, kind in ((1.0, 'uint16'), (1.5, 'uint8'), (5.0, 'uint16'),
                  (4.5, 'int16')):
    P.case(half_turn, cor=cor, kind=kind)
P.case(helix, full=False, kind='uint16')
P.case(helix, full=True, kind='uint8')
for kind in ('uint16', 'uint8', 'int16'):
    P.case(transmission, kind=kind)
    P.case(gradient, kind=kind)
P.case(transmission, kind='uint16', below=True)
P.case(transmission, kind='uint16', use_dark=False)
P.case(transmission, kind='uint16', ratio=0.5)
for i, ramp in enumerate(('after', 'before', None)):
    P.case(vertical, kind=KINDS[i], ramp=ramp)
    P.case(vertical, kind='uint16', ramp=ramp, fields=0, what='several')
    P.case(vertical, kind=KINDS[1 - i], ramp=ramp, what='several')
    P.case(vertical, kind='uint16', ramp=ramp, what='angles', fields=2)
P.case(vertical, kind='uint16', ramp=None, log=True)
P.case(vertical, kind='uint8', ramp='after', gpu=True)
for src in ('tif', 'tifs', 'hdf', 'ref', 'dls'):
    P.case(stack, src=src, kind='uint16', fields=2)
    P.case(stack, src=src, kind='uint8', fields=3)
P.case(stack, src='tif', kind='uint16', fields=2, idx=None)
P.case(stack, src='hdf', kind='uint16', fields=1, average=True)
P.case(stack, src='tifs', kind='uint16', fields=3, average=True)
P.case(blob, kind='uint16')
P.case(stripes, meth='remove_stripe_based_sorting', args=(3,), shape=(2, 4),
       kind='uint16')
P.case(stripes, meth='remove_stripe_based_filtering', args=(1, 3),
       shape=(4, 4), kind='uint16', sort=False)
P.case(stripes, meth='remove_stripe_based_fitting', args=(1, 2),
       shape=(5, 4), kind='uint16', lo=1)
P.case(stripes, meth='remove_stripe_based_normalization', args=(2,),
       shape=(3, 4), kind='uint16', lo=100, sort=False)
P.case(stripes, meth='remove_stripe_based_regularization', args=(0.01,),
       shape=(3, 4), kind='uint16', apply_log=False, sort=False)
P.case(stripes, meth='remove_stripe_based_fft', args=(2, 4, 1), shape=(3, 5),
       kind='uint16')
for dark in (False, True):
    P.case(umpa, kind='uint16', dark=dark, gain=7)
P.case(umpa, kind='uint8', dark=False, gain=1)
P.case(umpa, kind='uint8', dark=True, gain=1, gpu=True)
P.case(local, kind='uint16', dim=2, gain=7)
P.case(local, kind='uint8', dim=1, gain=1)
P.case(signals, kind='uint16')
