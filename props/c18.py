"""Converting between tif folders and hdf files, and collecting stacks."""
import os
import numpy as onp
from engine.registry import Prop

P = Prop('C18', ['io.converter.convert_tif_to_hdf',
                 'io.converter.extract_tif_from_hdf',
                 'io.converter.HdfEmulatorFromTif.__getitem__',
                 'io.loadersaver.get_reference_sample_stacks_dls',
                 'io.loadersaver.get_reference_sample_stacks',
                 'io.loadersaver.get_tif_stack',
                 'io.loadersaver.get_image_stack'],
         'stacks of 2..6 images of 2..5 x 2..5 pixels, every pixel of data, '
         'flat and dark fields symbolic, symbolic image index for the '
         'emulator, listed crops, axes, steps, orders of image types',
         ['reading a file gives the array written to it (PIL and h5py are '
          'modelled as stores)', 'float32 rounding'],
         'flat and dark fields of integer type; larger stacks')
LOS = 'algotom.io.loadersaver'
CON = 'algotom.io.converter'


def put_tifs(ctx, folder, a, names=None):
    for i in range(len(a)):
        ctx.put_image(os.path.join(folder, names[i] if names else
                                   'img_%05d.tif' % i), a[i])


def to_hdf(ctx, shape, crop=(0, 0, 0, 0), pattern=None, file='out.hdf',
           key='entry/data', dtype='float32', names=None, options=None):
    """The tif images in alphabetical order, cropped, become the dataset."""
    m = ctx.mod(CON)
    los = ctx.mod(LOS)
    np = ctx.np
    hi = 60000 if dtype[0] == 'u' else 4
    a = ctx.array('a', shape, -hi if hi == 4 else 0, hi, dtype)
    base = ctx.tmp()
    folder = os.path.join(base, 'in')
    names = names or ['img_%05d.tif' % i for i in range(shape[0])]
    put_tifs(ctx, folder, a, names)
    os.makedirs(os.path.join(base, 'sub'))
    k = dict(options={o: np.asarray([3.0]) for o in options}) \
        if options else {}
    out = m.convert_tif_to_hdf(folder, os.path.join(base, 'sub', file),
                               key_path=key, crop=crop, pattern=pattern, **k)
    use = sorted((n, i) for i, n in enumerate(names)
                 if pattern is None or pattern in n)
    t, b, l, r = crop
    d = los.load_hdf(str(out), key)
    want = np.asarray([ctx.nested(a[i])[t:shape[1] - b] for _, i in use])
    want = want[:, :, l:shape[2] - r]
    ctx.equal('shape', list(d.shape), list(want.shape))
    ctx.equal('dataset', d[:], want)
    for o in options or ():
        ctx.equal('option', los.load_hdf(str(out), o)[:], [3.0])
    ctx.check('tif files kept', sorted(os.listdir(folder)) == sorted(names))


def to_hdf_bad(ctx):
    m = ctx.mod(CON)
    base = ctx.tmp()
    put_tifs(ctx, base + '/in', ctx.array('a', (2, 3, 3)))
    ctx.raises('crop', ValueError, lambda: m.convert_tif_to_hdf(
        base + '/in', base + '/o.hdf', crop=(2, 1, 0, 0)))
    ctx.raises('crop', ValueError, lambda: m.convert_tif_to_hdf(
        base + '/in', base + '/o.hdf', crop=(0, 0, 0, 4)))
    ctx.check('nothing written', os.listdir(base) == ['in'])


def to_tif(ctx, shape, index, axis, crop=(0, 0, 0, 0), prefix='img'):
    """Slices along an axis, cropped in the image frame, numbered by their
    index in the dataset."""
    m = ctx.mod(CON)
    a = ctx.array('a', shape, dtype='float32')
    base = ctx.tmp()
    f = os.path.join(base, 'd.hdf')
    ctx.put_hdf(f, {'entry/data': a})
    out = os.path.join(base, 'out')
    m.extract_tif_from_hdf(f, out, 'entry/data', index=index, axis=axis,
                           crop=crop, prefix=prefix)
    n = shape[axis]
    if isinstance(index, tuple):
        start, stop, step = index
        if stop < 1 or stop > n:
            stop = n
        sel = list(range(start, stop, step))
    else:
        sel = [index]
    names = ['%s_%05d.tif' % (prefix, i) for i in sel]
    ctx.equal('files', sorted(os.listdir(out)), sorted(names))
    t, b, l, r = crop
    for i, nm in zip(sel, names):
        img = ctx.nested(a[(slice(None),) * axis + (i,)])
        img = [row[l:len(row) - r] for row in img[t:len(img) - b]]
        ctx.equal('image', ctx.get_image(os.path.join(out, nm)), img)


def round_trip(ctx, shape):
    """hdf to tif to hdf gives the same dataset."""
    m = ctx.mod(CON)
    los = ctx.mod(LOS)
    a = ctx.array('a', shape, dtype='float32')
    base = ctx.tmp()
    f = os.path.join(base, 'd.hdf')
    ctx.put_hdf(f, {'entry/data': a})
    m.extract_tif_from_hdf(f, os.path.join(base, 't'), 'entry/data')
    out = m.convert_tif_to_hdf(os.path.join(base, 't'),
                               os.path.join(base, 'e.hdf'))
    ctx.equal('round trip', los.load_hdf(str(out), 'entry/data')[:], a)


def emulator(ctx, shape, ext='tif', ncore=1):
    """Indexing the folder equals indexing the array."""
    m = ctx.mod(CON)
    np = ctx.np
    a = ctx.array('a', shape, dtype='float32')
    folder = os.path.join(ctx.tmp(), 'in')
    put_tifs(ctx, folder, a, ['f_%02d.%s' % (i, ext)
                              for i in range(shape[0])])
    e = m.HdfEmulatorFromTif(folder, ncore=ncore)
    ctx.check('shape', tuple(e.shape) == shape and len(e) == shape[0])
    ctx.check('type', str(e.dtype) == 'float32')
    s = slice
    n = s(None)
    for ix in (0, 1, -1, -shape[0], s(0, 2), s(1, None, 2), n, s(-2, None),
               (0, 1, 1), (n, 1, n), (n, n, 0), (s(0, 2), s(1, 2), n),
               (-1, s(0, 2), s(None, None, 2)), (s(None, None, 2), -1, -1),
               (s(1, 2), n, s(-2, -1)), (1, n, n), (0, -1, n)):
        ctx.equal('item', e[ix], a[ix])
    for k in (0, shape[0] - 1):
        ctx.equal('numpy index', e[onp.int64(k)], a[k])
        ctx.equal('numpy index', e[onp.int32(k), 0, :], a[k, 0])
    i = ctx.int('i', -shape[0], shape[0] - 1)
    ctx.equal('any index', e[i], a[i])
    ctx.raises('beyond the end', IndexError, lambda: e[shape[0]])


# ------------------------------------------------------------- stacks
def avg(imgs):
    n = len(imgs)
    return [[sum(q) / n for q in zip(*rows)] for rows in zip(*imgs)]


def crop2(img, c):
    t, b, l, r = c
    return [row[l:len(row) - r] for row in img[t:len(img) - b]]


def zeros_to_mean(ctx, stack, on=True):
    fl = [v for i in stack for r in i for v in r]
    if not on:
        return stack
    mu = sum(fl) / len(fl)
    return [[[ctx.ite(v == 0, mu, v) for v in r] for r in i] for i in stack]


def corrected(ctx, img, flat, dark, c):
    img = crop2(img, c)
    h, w = len(img), len(img[0])
    d = crop2(dark, c) if dark is not None else [[0.0] * w] * h
    out = [[img[i][j] - d[i][j] for j in range(w)] for i in range(h)]
    if flat is None:
        return out
    f = crop2(flat, c)
    f = [[f[i][j] - d[i][j] for j in range(w)] for i in range(h)]
    f = zeros_to_mean(ctx, [f])[0]
    return [[out[i][j] / f[i][j] for j in range(w)] for i in range(h)]


def fields(ctx, h, w, kind, hole=False):
    """Flat in 2..4 (a dead pixel where wanted), dark in 0..0.5."""
    np = ctx.np
    flat = dark = None
    if 'f' in kind:
        flat = ctx.array('f', (h, w), 2, 4)
    if 'd' in kind:
        dark = ctx.array('d', (h, w), 0, 0.5)
    if hole and flat is not None:
        flat[1, 1] = dark[1, 1] if dark is not None else 0.0
    n = (lambda x: None if x is None else ctx.nested(np.copy(x)))
    return flat, dark, n(flat), n(dark)


def data(ctx, name, shape, hole, dtype='float32'):
    hi = 9 if dtype[0] == 'u' else 4
    a = ctx.array(name, shape, 1, hi, dtype)
    if hole:
        a.reshape(-1)[3] = 0
    return a


def dls(ctx, keys, idx, h=3, w=3, kind='', crop=(0, 0, 0, 0), how='path',
        use=None, fix=True, hole=False, find=False, dtype='float32'):
    """Projections are counted among the sample images; flat and dark images
    of a file are averaged whatever their place in the scan."""
    m = ctx.mod(LOS)
    np = ctx.np
    flat, dark, fl, dl = fields(ctx, h, w, kind, hole)
    base = ctx.tmp()
    paths, imgs = [], []
    for q, key in enumerate(keys):
        a = data(ctx, 'a%d' % q, (len(key), h, w), hole and not fl, dtype)
        imgs.append(ctx.nested(a))
        p = os.path.join(base, 's%d.nxs' % q)
        ctx.put_hdf(p, {'entry/data/data': a,
                        'entry/image_key': np.asarray(
                            [float(k) for k in key])})
        paths.append(p)
    ik = 'entry/image_key' if how == 'path' else [int(k) for k in keys[0]]
    dk = 'entry/data/data'
    if find:
        ik = dk = None
    out = m.get_reference_sample_stacks_dls(
        idx, paths, data_key=dk, image_key=ik, crop=crop, flat_field=flat,
        dark_field=dark, num_use=use, fix_zero_div=fix)
    n = len(keys) if use is None else max(1, min(use, len(keys)))
    ref, sam = [], []
    for q in range(n):
        d = dl
        if d is None and '2' in keys[q]:
            d = avg([imgs[q][i] for i, k in enumerate(keys[q]) if k == '2'])
        r = [imgs[q][i] for i, k in enumerate(keys[q]) if k == '1']
        s = [imgs[q][i] for i, k in enumerate(keys[q]) if k == '0'][idx]
        if r:
            ref.append(corrected(ctx, avg(r), fl, d, crop))
        sam.append(corrected(ctx, s, fl, d, crop))
    if ref:
        ctx.check('two stacks', isinstance(out, tuple) and len(out) == 2)
        ctx.equal('references', out[0], zeros_to_mean(ctx, ref, fix))
        out = out[1]
    ctx.equal('samples', out, zeros_to_mean(ctx, sam, fix))
    for x, y in ((flat, fl), (dark, dl)):
        if x is not None:
            ctx.equal('fields untouched', x, y)


def dls_bad(ctx):
    m = ctx.mod(LOS)
    np = ctx.np
    base = ctx.tmp()
    p = base + '/a.nxs'
    a = ctx.array('a', (4, 2, 2))
    ctx.put_hdf(p, {'entry/data/data': a,
                    'entry/image_key': np.asarray([1.0, 0.0, 0.0, 2.0])})
    f = m.get_reference_sample_stacks_dls
    k = dict(data_key='entry/data/data', image_key='entry/image_key')
    ctx.raises('index', ValueError, lambda: f(2, [p], **k))
    ctx.raises('index', ValueError, lambda: f(-1, [p], **k))
    ctx.raises('path', ValueError, lambda: f(0, p, **k))
    ctx.raises('crop', ValueError, lambda: f(0, [p], crop=(1, 1, 0, 0), **k))
    ctx.raises('flat', ValueError, lambda: f(0, [p], flat_field=a[0, :1],
                                             **k))
    ctx.raises('keys', ValueError, lambda: f(
        0, [p], data_key='entry/data/data', image_key=[0, 1]))


def ref_sam(ctx, nref, nsam, idx, h=3, w=3, kind='', crop=(0, 0, 0, 0),
            use=None, fix=True, hole=False):
    """References averaged over their file, samples at the index."""
    m = ctx.mod(LOS)
    flat, dark, fl, dl = fields(ctx, h, w, kind, hole)
    base = ctx.tmp()
    rp, sp, ri, si = [], [], [], []
    for q in range(2):
        r = data(ctx, 'r%d' % q, (nref, h, w) if nref else (h, w),
                 hole and not fl)
        s = data(ctx, 's%d' % q, (nsam, h, w), False)
        rp.append(base + '/r%d.hdf' % q)
        sp.append(base + '/s%d.hdf' % q)
        ctx.put_hdf(rp[-1], {'e/r': r})
        ctx.put_hdf(sp[-1], {'e/s': s})
        r = ctx.nested(r)
        ri.append(avg(r) if nref else r)
        si.append(ctx.nested(s)[idx])
    out = m.get_reference_sample_stacks(
        idx, rp, sp, 'e/r', 'e/s', crop=crop, flat_field=flat,
        dark_field=dark, num_use=use, fix_zero_div=fix)
    n = 2 if use is None else max(1, min(use, 2))
    for lab, got, src in (('references', out[0], ri), ('samples', out[1],
                                                       si)):
        want = [corrected(ctx, src[q], fl, dl, crop) for q in range(n)]
        ctx.equal(lab, got, zeros_to_mean(ctx, want, fix))
    for x, y in ((flat, fl), (dark, dl)):
        if x is not None:
            ctx.equal('fields untouched', x, y)


def images(ctx, src, idx, n=3, h=3, w=3, kind='', crop=(0, 0, 0, 0),
           use=None, fix=True, hole=False, average=False, many=2):
    """One folder, several folders or several files give the same stack as
    plain indexing followed by correction and cropping."""
    m = ctx.mod(LOS)
    flat, dark, fl, dl = fields(ctx, h, w, kind, hole)
    base = ctx.tmp()
    paths, sets = [], []
    for q in range(1 if src == 'tif' else many):
        a = data(ctx, 'a%d' % q, (h, w) if src == 'hdf2' else (n, h, w),
                 hole and not fl)
        p = base + '/%s%d' % (src, q)
        if src[0] == 't':
            put_tifs(ctx, p, a)
        else:
            p += '.hdf'
            ctx.put_hdf(p, {'e/d': a})
        paths.append(p)
        sets.append(ctx.nested(a))
    out = m.get_image_stack(
        idx, paths[0] if src == 'tif' else paths, data_key='e/d',
        average=average, crop=crop, flat_field=flat, dark_field=dark,
        num_use=use, fix_zero_div=fix)
    cut = (lambda x: x if use is None else x[:max(1, use)])
    if src == 'tif':
        sel = cut(sets[0]) if idx is None else [sets[0][idx]]
    elif src == 'hdf2':
        sel = cut(sets)
    else:
        sel = [avg(s) if average else s[idx] for s in cut(sets)]
    want = [corrected(ctx, s, fl, dl, crop) for s in sel]
    ctx.equal('stack', out, zeros_to_mean(ctx, want, fix))
    for x, y in ((flat, fl), (dark, dl)):
        if x is not None:
            ctx.equal('fields untouched', x, y)


def images_bad(ctx):
    m = ctx.mod(LOS)
    base = ctx.tmp()
    put_tifs(ctx, base + '/t', ctx.array('a', (2, 3, 3)))
    ctx.put_hdf(base + '/a.hdf', {'e/d': ctx.array('b', (2, 3, 3))})
    f = m.get_image_stack
    ctx.raises('index', ValueError, lambda: f(2, base + '/t'))
    ctx.raises('folder', ValueError, lambda: f(0, base + '/u'))
    ctx.raises('key', ValueError, lambda: f(0, [base + '/a.hdf']))
    ctx.raises('crop', ValueError, lambda: f(0, base + '/t',
                                             crop=(2, 1, 0, 0)))
    ctx.raises('type', ValueError, lambda: f(0, (base + '/t',)))
    ctx.raises('flat', ValueError, lambda: f(
        0, [base + '/t'], flat_field=ctx.array('f', (4, 3), 1, 2)))


P.case(to_hdf, shape=(3, 2, 3))
P.case(to_hdf, shape=(3, 4, 5), crop=(1, 2, 0, 3), key='a/b')
P.case(to_hdf, shape=(4, 3, 4), crop=(0, 1, 2, 1), pattern='proj',
       names=['proj_2.tif', 'dark_1.tif', 'proj_1.tiff', 'x_proj3.tif'])
P.case(to_hdf, shape=(2, 3, 2), dtype='uint16', options=('entry/energy',))
P.case(to_hdf_bad)
for axis in (0, 1, 2):
    P.case(to_tif, shape=(5, 4, 3), index=(0, -1, 1), axis=axis)
    P.case(to_tif, shape=(5, 4, 3), index=(1, 3, 2), axis=axis,
           crop=(1, 0, 0, 1))
    P.case(to_tif, shape=(4, 4, 5), index=2, axis=axis, crop=(0, 2, 1, 0),
           prefix='a')
P.case(to_tif, shape=(5, 3, 3), index=(1, 9, 3), axis=0)
P.case(round_trip, shape=(3, 2, 4))
P.case(emulator, shape=(4, 3, 3))
P.case(emulator, shape=(3, 2, 4), ext='TIF', ncore=2)
P.case(emulator, shape=(3, 2, 3), ext='tiff')
for kind in ('', 'f', 'd', 'fd'):
    P.case(dls, keys=('1100022', '1100022'), idx=1, kind=kind,
           crop=(1, 0, 0, 1), w=4)
    P.case(dls, keys=('21001', '21001'), idx=0, kind=kind)
    P.case(ref_sam, nref=2, nsam=3, idx=1, kind=kind, crop=(0, 1, 1, 0))
    P.case(images, src='tif', idx=None, kind=kind, crop=(0, 1, 1, 0))
    P.case(images, src='tifs', idx=1, kind=kind, crop=(1, 0, 0, 1))
    P.case(images, src='hdf', idx=2, kind=kind, crop=(1, 0, 0, 1))
P.case(dls, keys=('120010', '12010'), idx=1)
P.case(dls, keys=('1002', '1002', '1002'), idx=1, use=2)
P.case(dls, keys=('1002', '1002'), idx=1, use=0, fix=False)
P.case(dls, keys=('102',), idx=0)
P.case(dls, keys=('10021',), idx=1, kind='f')
P.case(dls, keys=('0000', '000'), idx=2, kind='f')
P.case(dls, keys=('0100', '0100'), idx=2, how='list')
P.case(dls, keys=('1002', '1002'), idx=0, find=True)
P.case(dls, keys=('1002', '1002'), idx=0, kind='f', hole=True)
P.case(dls, keys=('10', '10'), idx=0, hole=True)
P.case(dls, keys=('1002', '1002'), idx=0, dtype='uint16')
P.case(dls_bad)
P.case(ref_sam, nref=0, nsam=2, idx=-1, kind='fd', hole=True)
P.case(ref_sam, nref=0, nsam=2, idx=0, hole=True)
P.case(ref_sam, nref=2, nsam=2, idx=0, use=1, fix=False)
P.case(ref_sam, nref=2, nsam=2, idx=0, h=4, kind='fd')
P.case(images, src='tif', idx=1)
P.case(images, src='tif', idx=-1, kind='fd', h=4)
P.case(images, src='tif', idx=None, use=2, n=4)
P.case(images, src='tif', idx=None, hole=True)
P.case(images, src='tif', idx=None, kind='f', hole=True, fix=False)
P.case(images, src='tifs', idx=0, average=True, hole=True)
P.case(images, src='hdf', idx=0, average=True, kind='fd', hole=True)
P.case(images, src='hdf', idx=0, use=1, many=3)
P.case(images, src='hdf2', idx=None, kind='f')
for src in ('tif', 'tifs', 'hdf'):     # dead pixels of cropped fields
    for kind in ('f', 'fd'):
        P.case(images, src=src, idx=1, kind=kind, hole=True,
               crop=(0, 1, 1, 0))
P.case(images, src='tif', idx=None, kind='fd', hole=True, crop=(1, 0, 0, 1),
       h=4)
P.case(ref_sam, nref=2, nsam=2, idx=0, kind='fd', hole=True,
       crop=(1, 0, 0, 1))
P.case(dls, keys=('1002', '1002'), idx=0, kind='f', hole=True,
       crop=(0, 1, 1, 0))
P.case(images_bad)
