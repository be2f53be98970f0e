"""Reslicing of a dataset and ring removal on slices."""
import math
import os
import numpy as onp
from engine.registry import Prop
from props.common import bilin
from props.c18 import put_tifs
from props.c19 import crop3, steps

P = Prop('C20', ['post.postprocessing.reslice_dataset',
                 'post.postprocessing.__save_intermediate_data'],
         'datasets of 1..5 images of 1..5 x 1..5 pixels, every pixel '
         'symbolic; tif folders and hdf files in and out; listed chunks, '
         'crops, rotations, ranges',
         ['float32 rounding', 'reading a file gives the array written to it'],
         'rotation of integer data; a folder "tmp_" of the user inside the '
         'output; 100000 slices or more')
POST = 'algotom.post.postprocessing'


def turned(img, deg):
    """Image rotated about its centre by bilinear interpolation, zeros
    outside."""
    h, w = len(img), len(img[0])
    cy, cx = (h - 1) / 2.0, (w - 1) / 2.0
    a = math.radians(deg)
    out = []
    for i in range(h):
        row = []
        for j in range(w):
            y = cy + (i - cy) * math.cos(a) + (j - cx) * math.sin(a)
            x = cx - (i - cy) * math.sin(a) + (j - cx) * math.cos(a)
            inside = -1e-9 <= y <= h - 1 + 1e-9 and -1e-9 <= x <= w - 1 + 1e-9
            row.append(bilin(img, y, x) if inside else 0.0)
        out.append(row)
    return out


def reslice(ctx, shape, src, dst, axis, chunk=16, crop=(0,) * 6, rotate=0.0,
            scaled=None, dtype='float32', ncore=1, overwrite=False,
            key='e/d', skip=None, folder=False, progress=False):
    """Slice k of the output collects row (or column) k of every cropped,
    rotated image; the chunk size does not matter; nothing else is left or
    lost on the disk."""
    m = ctx.mod(POST)
    np = ctx.np
    u = dtype[0] == 'u'
    a = ctx.array('a', shape, 0 if u else -4, 200 if u else 4, dtype)
    keep = np.copy(a)
    base = ctx.tmp()
    k = {}
    if src == 'tif':
        arg = os.path.join(base, 'in')
        put_tifs(ctx, arg, a)
    else:
        arg = os.path.join(base, 'in.hdf')
        ctx.put_hdf(arg, {key: a})
        k['key_path'] = key
    od = os.path.join(base, 'o')
    os.mkdir(od)
    out = os.path.join(od, 'r' if dst == 'tif' else 'r.hdf')
    if folder:          # something of the user lives beside the output
        os.makedirs(os.path.join(od, 'r'))
        with open(os.path.join(od, 'r', 'notes.txt'), 'w') as f:
            f.write('mine')
    if overwrite and dst == 'hdf':
        ctx.put_hdf(out, {'old': a})
    if scaled:
        k.update(rescaling=True, nbit=scaled[0], minmax=scaled[1], skip=skip)
    m.reslice_dataset(arg, out, axis=axis, rotate=rotate, chunk=chunk,
                      crop=crop, ncore=ncore, show_progress=progress,
                      overwrite=overwrite or folder, **k)
    vol = [turned(i, rotate) if rotate else i for i in ctx.nested(keep)]
    c = crop
    d, h, w = shape
    vol = [[r[c[4]:w - c[5]] for r in i[c[2]:h - c[3]]]
           for i in vol[c[0]:d - c[1]]]
    if axis == 1:
        want = [[i[y] for i in vol] for y in range(len(vol[0]))]
    else:
        want = [[[r[x] for r in i] for i in vol]
                for x in range(len(vol[0][0]))]
    left = {'r'} if dst == 'tif' or folder else set()
    if dst == 'hdf':
        left.add('r.hdf')
        got = ctx.get_hdf(out, key if src == 'hdf' else 'entry/data')
    else:
        fs = ['img_%05d.tif' % i for i in range(len(want))]
        ctx.equal('files', sorted(f for f in os.listdir(out)
                                  if f != 'notes.txt'), fs)
        got = np.asarray([ctx.get_image(os.path.join(out, f)) for f in fs])
    ctx.equal('left in the output folder', sorted(os.listdir(od)),
              sorted(left))
    ctx.equal('left beside it', sorted(os.listdir(base)),
              sorted(['o', os.path.basename(arg)]))
    if folder:
        p = os.path.join(od, 'r', 'notes.txt')
        ctx.check('data of the user kept', os.path.isfile(p) and
                  open(p).read() == 'mine')
    if src == 'tif':
        ctx.equal('input files', len(os.listdir(arg)), d)
    ctx.equal('shape', list(got.shape),
              [len(want), len(want[0]), len(want[0][0])])
    if not scaled or dtype == 'uint%d' % scaled[0]:
        ctx.check('type', str(got.dtype) == dtype)
        ctx.equal('slices', got, want)
        return
    lo, hi = scaled[1] or (0, 255)
    if scaled[1] is None and not u:
        st = m.get_statistical_information_dataset(
            np.asarray(vol), skip=skip)
        lo, hi = st[0], st[1]
        ctx.assume(hi - lo > 1)
    ctx.check('type', str(got.dtype) == 'uint%d' % scaled[0])
    for g, v in zip(ctx.nested(got), want):
        steps(ctx, 'slices on the scale', g, v, scaled[0], lo, hi)


def bad(ctx):
    m = ctx.mod(POST)
    a = ctx.array('a', (2, 3, 3))
    base = ctx.tmp()
    put_tifs(ctx, base + '/in', a)
    ctx.put_hdf(base + '/d.hdf', {'e/d': a})
    with open(base + '/old.hdf', 'w') as f:
        f.write('old')
    os.mkdir(base + '/f')
    r = m.reslice_dataset
    ctx.raises('no output', ValueError, lambda: r(base + '/in', None))
    ctx.raises('axis', ValueError, lambda: r(base + '/in', base + '/o',
                                             axis=0))
    ctx.raises('array', ValueError, lambda: r(a, base + '/o'))
    ctx.raises('existing file', ValueError, lambda: r(
        base + '/in', base + '/old.hdf'))
    ctx.raises('existing folder', ValueError, lambda: r(
        base + '/in', base + '/f'))
    ctx.raises('key', ValueError, lambda: r(base + '/d.hdf', base + '/o'))
    ctx.raises('crop', ValueError, lambda: r(
        base + '/in', base + '/o', crop=(0, 0, 2, 1, 0, 0)))
    with open(base + '/old.hdf') as f:
        ctx.check('existing file untouched', f.read() == 'old')
    ctx.equal('nothing written', sorted(os.listdir(base)),
              ['d.hdf', 'f', 'in', 'old.hdf'])


for src in ('tif', 'hdf'):
    for dst in ('tif', 'hdf'):
        for axis in (1, 2):
            k = dict(src=src, dst=dst, axis=axis)
            P.case(reslice, shape=(3, 4, 5), **k)
            P.case(reslice, shape=(5, 4, 3), chunk=2, ncore=2, **k)
            P.case(reslice, shape=(5, 5, 4), chunk=2,
                   crop=(1, 0, 0, 2, 1, 0), **k)
            P.case(reslice, shape=(5, 4, 5), chunk=3,
                   crop=(2, 1, 1, 0, 0, 1), overwrite=True, **k)
            P.case(reslice, shape=(3, 3, 4), chunk=1, scaled=(8, (-2.0, 3.0)),
                   crop=(1, 0, 0, 0, 0, 0), **k)
            P.case(reslice, shape=(3, 4, 4), chunk=2, rotate=30.0,
                   crop=(0, 0, 1, 0, 0, 1), **k)
            P.case(reslice, shape=(2, 3, 2), chunk=2,
                   scaled=(16, (-1.0, 1.0)), folder=dst == 'hdf', **k)
            P.case(reslice, shape=(3, 2, 2), chunk=2, dtype='uint8',
                   scaled=(16, None), **k)
            P.case(reslice, shape=(3, 2, 2), chunk=2, dtype='uint8',
                   scaled=(16, (10, 150)), **k)
            P.case(reslice, shape=(3, 2, 3), chunk=2, dtype='uint8',
                   scaled=(8, None), progress=True, **k)
        P.case(reslice, shape=(2, 1, 2), scaled=(8, None), skip=1, src=src,
               dst=dst, axis=1)
        P.case(reslice, shape=(2, 2, 3), scaled=(8, None), skip=1, src=src,
               dst=dst, axis=1, crop=(0, 0, 1, 0, 0, 1))
        P.case(reslice, shape=(3, 1, 3), scaled=(16, None), skip=1, src=src,
               dst=dst, axis=2, crop=(0, 1, 0, 0, 1, 0))
        P.case(reslice, shape=(1, 3, 2), src=src, dst=dst, axis=1)
        P.case(reslice, shape=(3, 1, 2), src=src, dst=dst, axis=1)
        P.case(reslice, shape=(2, 3, 3), src=src, dst=dst, axis=2, chunk=1,
               rotate=-90.0)
P.case(reslice, shape=(3, 2, 2), src='hdf', dst='hdf', axis=1, folder=True,
       key='data')
P.case(bad)
