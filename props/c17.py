"""Saving and loading: what is written comes back, nothing is overwritten."""
import os
import itertools
import numpy as onp
from engine.registry import Prop

P = Prop('C17', ['io.loadersaver.load_image', 'io.loadersaver.save_image',
                 'io.loadersaver.load_image_multiple',
                 'io.loadersaver.save_image_multiple',
                 'io.loadersaver.make_file_name',
                 'io.loadersaver.make_folder',
                 'io.loadersaver.make_folder_name',
                 'io.loadersaver.find_file',
                 'io.loadersaver.load_hdf',
                 'io.loadersaver.open_hdf_stream',
                 'io.loadersaver.find_hdf_key',
                 'io.loadersaver.get_hdf_information',
                 'io.loadersaver.save_distortion_coefficient',
                 'io.loadersaver.load_distortion_coefficient'],
         'images of 2..5 pixels a side with every pixel symbolic, any subset '
         'of up to 6 existing files or folders, up to 5 symbolic distortion '
         'coefficients of any size between 1e-12 and 1e4',
         ['reading a file gives the array written to it (PIL and h5py are '
          'modelled as stores)', 'float32 rounding',
          'str() of a float reads back as that float'],
         'other file systems, compression, Windows paths')
LOS = 'algotom.io.loadersaver'


def u8(ctx, rows):
    """8-bit scaling of a non-tif image."""
    fl = [v for r in rows for v in r]
    lo, hi = fl[0], fl[0]
    for v in fl:
        lo, hi = ctx.min(lo, v), ctx.max(hi, v)
    return [[ctx.trunc((v - lo) * 255.0 / (hi - lo)) for v in r]
            for r in rows]


def image(ctx, shape, dtype, ext, sub=''):
    """tif keeps the values; a missing folder is made."""
    m = ctx.mod(LOS)
    np = ctx.np
    hi = {'uint8': 255, 'uint16': 65535}.get(dtype, 4)
    a = ctx.array('a', shape, 0 if dtype[0] == 'u' else -4, hi, dtype)
    keep = np.copy(a)
    path = os.path.join(ctx.tmp(), sub, 'img' + ext)
    ret = m.save_image(path, a)
    ctx.check('returned path', str(ret) == os.path.realpath(path))
    b = m.load_image(path)
    ctx.check('type', ctx.dtype(b) == 'float32')
    ctx.equal('image read back', b, keep)
    ctx.equal('image untouched', a, keep)
    with_path = m.load_image(ret)
    ctx.equal('image read back', with_path, keep)


def eight_bit(ctx, shape, ext):
    """Formats other than tif hold 0..255 from the smallest to the largest."""
    m = ctx.mod(LOS)
    np = ctx.np
    a = ctx.array('a', shape, -4, 4)
    fl = [v for r in ctx.nested(a) for v in r]
    ctx.assume(fl[0] - fl[1] > 0.5)
    path = os.path.join(ctx.tmp(), 'img' + ext)
    m.save_image(path, a)
    b = m.load_image(path)
    want = u8(ctx, ctx.nested(a))
    for v, w in zip([v for r in ctx.nested(b) for v in r],
                    [v for r in want for v in r]):
        ctx.check('8 bits', ctx.all([v - w <= 1.001, w - v <= 1.001,
                                     v >= 0, v <= 255]))


def colour(ctx, shape):
    """The colour axis is averaged."""
    m = ctx.mod(LOS)
    a = ctx.array('a', shape, 0, 255, 'uint8')
    path = os.path.join(ctx.tmp(), 'img.tif')
    ctx.put_image(path, a)
    n = ctx.nested(a)
    ctx.equal('mean of the colours', m.load_image(path),
              [[sum(p, 0.0) / len(p) for p in r] for r in n])


def keep_existing(ctx, ext, ask, n=3):
    """Whatever files exist already, overwrite=False leaves each as it was
    and returns the file that holds the new data."""
    m = ctx.mod(LOS)
    np = ctx.np
    base = ctx.tmp()
    names = ['img' + ext] + ['img_%04d%s' % (i, ext) for i in range(n)]
    here = [f for f in names if ctx.bool('e_' + f.replace('.', '_'))]
    raw = {}
    for i, f in enumerate(here):
        p = os.path.join(base, f)
        with open(p, 'w') as fh:
            fh.write('old %d' % i)
        raw[f] = 'old %d' % i
    path = os.path.join(base, names[0])
    if ask == 'image':
        a = ctx.array('a', (2, 2))
        ret = str(m.save_image(path, a, overwrite=False))
        ctx.equal('new data', m.load_image(ret), a)
    elif ask == 'hdf':
        a = ctx.array('a', (2, 2))
        d = m.open_hdf_stream(path, (2, 2), overwrite=False)
        ret = d.file.filename
        d[0] = a[0]
        d[1] = a[1]
        d.file.close()
        ctx.equal('new data', m.load_hdf(ret, 'entry/data')[:], a)
    elif ask == 'text':
        x = ctx.real('x', 0, 10)
        ret = str(m.save_distortion_coefficient(path, x, 2.0, [1.0],
                                                overwrite=False))
        ctx.equal('new data', m.load_distortion_coefficient(ret)[0], x)
    else:
        ret = m.make_file_name(path)
    ctx.check('new name', os.path.basename(ret) not in here)
    ctx.check('same folder and format',
              os.path.realpath(os.path.dirname(ret)) ==
              os.path.realpath(base) and ret.endswith(ext))
    if not here:
        ctx.check('asked name when free', os.path.basename(ret) == names[0])
    for f in here:
        with open(os.path.join(base, f)) as fh:
            ctx.check('existing file untouched', fh.read() == raw[f])
    if ask == 'name':
        ctx.check('nothing created', sorted(os.listdir(base)) == sorted(here))


def folder_name(ctx, prefix, zeros, n=4):
    """A fresh folder name whatever folders exist."""
    m = ctx.mod(LOS)
    base = ctx.tmp()
    names = ['%s_%s' % (prefix, str(i + 1).zfill(zeros)) for i in range(n)]
    here = [f for f in names if ctx.bool('e_' + f)]
    for f in here:
        os.mkdir(os.path.join(base, f))
    k = dict(name_prefix=prefix, zero_prefix=zeros)
    ret = m.make_folder_name(base, **k)
    ctx.check('fresh', ret not in here and not os.path.exists(
        os.path.join(base, ret)))
    num = ret[len(prefix) + 1:]
    ctx.check('prefix and digits', ret.startswith(prefix + '_') and
              num.isdigit() and len(num) == zeros)
    ctx.check('nothing created', sorted(os.listdir(base)) == sorted(here))


def folders(ctx):
    """make_folder makes the folder of a file or the folder itself."""
    m = ctx.mod(LOS)
    base = ctx.tmp()
    m.make_folder(os.path.join(base, 'a', 'b', 'img.tif'))
    ctx.check('parent of the file', os.path.isdir(os.path.join(
        base, 'a', 'b')) and not os.path.exists(os.path.join(
            base, 'a', 'b', 'img.tif')))
    m.make_folder(os.path.join(base, 'c', 'd'))
    ctx.check('folder', os.path.isdir(os.path.join(base, 'c', 'd')))
    with open(os.path.join(base, 'c', 'd', 'x'), 'w') as f:
        f.write('1')
    m.make_folder(os.path.join(base, 'c', 'd'))
    ctx.check('existing folder kept', os.listdir(
        os.path.join(base, 'c', 'd')) == ['x'])


def multiple(ctx, shape, axis, how, ncore, start=0, overwrite=True):
    """A stack saved along an axis comes back slice by slice."""
    m = ctx.mod(LOS)
    np = ctx.np
    a = ctx.array('a', shape)
    base = ctx.tmp()
    n = shape[axis]
    if how == 'folder':
        arg = base + '/out'
        paths = ['%s/out/img_%05d.tif' % (base, start + i) for i in range(n)]
    else:
        arg = paths = [base + '/x/s%d.tif' % (7 * i % 5) for i in range(n)]
    m.save_image_multiple(arg, a, axis=axis, ncore=ncore, start_idx=start,
                          overwrite=overwrite)
    d = os.path.dirname(paths[0])
    ctx.equal('files', sorted(os.listdir(d)),
              sorted(os.path.basename(p) for p in paths))
    out = m.load_image_multiple(list(paths), ncore=ncore)
    want = [a[(slice(None),) * axis + (i,)] for i in range(n)]
    ctx.equal('stack', out, np.asarray(want))
    ctx.equal('sorted list of files', m.find_file(d + '/*.tif'),
              sorted(paths))


def many(ctx, start, n):
    """Every image of a long stack gets a file of its own."""
    m = ctx.mod(LOS)
    a = ctx.array('a', (n, 1, 2))
    base = ctx.tmp()
    m.save_image_multiple(base, a, start_idx=start, ncore=1)
    fs = os.listdir(base)
    ctx.check('one file per image', len(fs) == n)
    for i in range(n):
        k = [f for f in fs if int(f[4:-4]) == start + i]
        ctx.check('one file per index', len(k) == 1)
        if k:
            ctx.equal('image', m.load_image(os.path.join(base, k[0])), a[i])


def bad_multiple(ctx):
    m = ctx.mod(LOS)
    a = ctx.array('a', (2, 3, 4))
    base = ctx.tmp()
    ctx.raises('number of paths', ValueError, lambda: m.save_image_multiple(
        [base + '/a.tif'], a))
    ctx.raises('paths', ValueError, lambda: m.save_image_multiple(
        (base + '/a.tif', base + '/b.tif'), a))
    ctx.raises('paths', ValueError, lambda: m.load_image_multiple(
        base + '/a.tif'))
    ctx.raises('missing file', ValueError, lambda: m.load_image(
        base + '/a.tif'))
    ctx.raises('missing file', FileNotFoundError,
               lambda: m.find_file(base + '/a*.tif'))
    ctx.raises('missing file', ValueError, lambda: m.load_hdf(
        base + '/a.hdf', 'entry/data'))
    ctx.raises('complex', ValueError, lambda: m.save_image(
        base + '/a.tif', a[0] * (1 + 2j)))
    ctx.check('nothing written', os.listdir(base) == [])


def stream(ctx, file, key, dtype, shape, options=None):
    """A stream holds what was put in it, with its shape, type, options."""
    m = ctx.mod(LOS)
    np = ctx.np
    a = ctx.array('a', shape)
    e = ctx.real('e', 10, 60)
    opts = {}
    if options:
        opts['options'] = {k: (np.asarray([1.0, 2.0]) if k.endswith('list')
                               else np.asarray([0.0 + e])) for k in options}
    path = os.path.join(ctx.tmp(), 'sub', file)
    d = m.open_hdf_stream(path, shape, key_path=key, data_type=dtype, **opts)
    ctx.check('shape', tuple(d.shape) == tuple(shape))
    ctx.check('type', str(d.dtype) == dtype)
    for i in range(shape[0]):
        d[i] = a[i]
    fn = d.file.filename
    d.file.close()
    root, ext = os.path.splitext(os.path.realpath(path))
    want = os.path.realpath(path) if ext in ('.hdf', '.h5', '.nxs') else \
        root + '.hdf'
    ctx.check('file name', os.path.realpath(fn) == want)
    r, f = m.load_hdf(fn, key, return_file_obj=True)
    ctx.equal('data', r[:], a)
    f.close()
    for k in options or ():
        r = m.load_hdf(fn, k)[:]
        ctx.equal('option', r, opts['options'][k])
    ctx.raises('wrong key', ValueError, lambda: m.load_hdf(fn, key + 'x'))
    k, s, t = m.find_hdf_key(fn, key)
    got = [(x.strip('/'), None if y is None else tuple(y)) for x, y in
           zip(k, s)]
    ctx.check('key found', (key.strip('/'), tuple(shape)) in got)
    k, s, t = m.get_hdf_information(fn)
    ctx.check('lists of one length', len(k) == len(s) == len(t))
    got = [(x.strip('/'), None if y is None else tuple(y)) for x, y in
           zip(k, s)]
    for q in [key] + list(options or ()):
        sh = tuple(shape) if q == key else (
            (2,) if q.endswith('list') else (1,))
        ctx.check('dataset listed', (q.strip('/'), sh) in got)


def child_key(ctx, key, child):
    m = ctx.mod(LOS)
    path = os.path.join(ctx.tmp(), 'a.hdf')
    ctx.raises('option below the data', ValueError, lambda: m.open_hdf_stream(
        path, (2, 2), key_path=key, options={child: 1.0}))


def coefficients(ctx, n, file, lo=-1e4, hi=1e4):
    """Centers and factors of any size come back exactly."""
    m = ctx.mod(LOS)
    x, y = ctx.real('x', 0, 4000), ctx.real('y', 0, 4000)
    f = ctx.list(ctx.array('f', (n,), lo, hi)) if n else []
    path = os.path.join(ctx.tmp(), 'sub', file)
    ret = str(m.save_distortion_coefficient(path, x, y, f))
    root, ext = os.path.splitext(os.path.realpath(path))
    ctx.check('file name', ret == (os.path.realpath(path) if ext.lower() in (
        '.txt', '.dat') else root + '.txt'))
    a, b, g = m.load_distortion_coefficient(ret)
    tol = min(1e-6, hi * 1e-6)
    ctx.equal('center', [a, b], [x, y], tol=1e-6)
    ctx.check('number of factors', len(g) == n)
    ctx.equal('factors', g, f, tol=tol)


for dt in ('float32', 'float64', 'uint8', 'uint16'):
    P.case(image, shape=(2, 3), dtype=dt, ext='.tif')
P.case(image, shape=(5, 2), dtype='float32', ext='.tiff', sub='new/sub')
P.case(eight_bit, shape=(2, 2), ext='.png')
P.case(eight_bit, shape=(1, 3), ext='.bmp')
P.case(colour, shape=(4, 5, 3))
P.case(keep_existing, ext='.tif', ask='image', n=4)
P.case(keep_existing, ext='.hdf', ask='hdf')
P.case(keep_existing, ext='.txt', ask='text')
P.case(keep_existing, ext='.dat', ask='name', n=5)
P.case(keep_existing, ext='', ask='name')
P.case(folder_name, prefix='Output', zeros=5, n=6)
P.case(folder_name, prefix='scan_a', zeros=3, n=5)
P.case(folders)
for axis in (0, 1, 2):
    for ncore in (1, 3):
        P.case(multiple, shape=(2, 3, 4), axis=axis, how='folder',
               ncore=ncore, start=2 * ncore)
        P.case(multiple, shape=(2, 3, 4), axis=axis, how='list', ncore=ncore)
P.case(multiple, shape=(3, 2, 2), axis=0, how='folder', ncore=None,
       overwrite=False)
P.case(many, start=9998, n=4)
P.case(many, start=99998, n=4)
P.case(bad_multiple)
P.case(stream, file='a.hdf', key='entry/data', dtype='float32',
       shape=(2, 3))
P.case(stream, file='a.nxs', key='/entry/sub/data', dtype='float64',
       shape=(2, 2, 3), options=('entry/energy', 'rotation/list'))
P.case(stream, file='abc', key='data', dtype='float32', shape=(2, 2),
       options=('metadata/energy', 'entry/angle_list'))
P.case(child_key, key='entry/data', child='entry/data/energy')
P.case(child_key, key='entry/data', child='entry/data')
P.case(coefficients, n=5, file='c.txt')
P.case(coefficients, n=3, file='c.dat', lo=1e-9, hi=1e-7)
P.case(coefficients, n=2, file='c', lo=-1e-12, hi=1e-12)
P.case(coefficients, n=0, file='c.TXT')
