"""Helical-scan sinogram generation."""
from engine.registry import Prop

P = Prop('C05', ['prep.conversion.generate_sinogram_helical_scan',
                 'prep.conversion.generate_full_sinogram_helical_scan',
                 'prep.calculation.calculate_maximum_index',
                 'prep.calculation.calculate_reconstructable_height'],
         'up to 12 projections of 4..6 x 2..3 pixels, 3 projections per half '
         'turn, both scan types, every slice index (also invalid ones), '
         'symbolic stage offset, with/without flat, dark, angles, mask, crop; '
         'all pixel values',
         [], 'longer scans; the blob filter itself (see removal properties)')
CONV = 'algotom.prep.conversion'


def _check(ctx, full, num_proj, pixel, pitch, span, depth, height, width,
           scan, ff, ang, crop, masked, idx):
    np = ctx.np
    m = ctx.mod(CONV)
    calc = ctx.mod('algotom.prep.calculation')
    ct, cb, cl, cr = crop
    H, W = height + ct + cb, width + cl + cr
    data = ctx.array('data', (depth, H, W), 0.25, 4)
    y0 = 1.0
    off = ctx.real('off', 0, 0.5)
    ys, ye = y0, y0 + span + off
    flat = dark = angles = mask = None
    if ff:
        flat = ctx.array('flat', (H, W), 2, 4)
        dark = ctx.array('dark', (H, W), 0, 1)
    if ang:
        angles = ctx.array('angles', (depth,), 0, 360)
    if masked:
        mk = np.zeros((H, W))
        mk[0::2, W // 2] = 1.0          # rows differ
        mk[1::2, W // 2 + 1] = 1.0
        mk[:, :cl] = 1.0                # blobs outside of the area used
        mk[:, W - cr:] = 1.0
        mk[:ct] = 1.0
        mask = mk
    index = idx
    kw = dict(scan_type=scan, angles=angles, flat=flat, dark=dark, mask=mask,
              crop=crop)
    fn = (m.generate_full_sinogram_helical_scan if full
          else m.generate_sinogram_helical_scan)
    half = 0.5 if scan == '180' else 1.0
    y_s, y_e = ys + pitch * half, ye - pitch * half
    ctx.assume(y_e - y_s >= 0)
    maxi = ctx.floor((y_e - y_s) / pixel) + 1
    hs = calc.calculate_reconstructable_height(ys, ye, pitch, scan)
    ctx.equal('reconstructable range', list(hs), [y_s, y_e])
    ctx.equal('maximum index', calc.calculate_maximum_index(
        ys, ye, pitch, pixel, scan), maxi)
    step = pitch / (2.0 * (num_proj - 1))
    if full:
        nused = -int(np.floor((1 - height) * pixel / step)) - 1
    else:
        nused = num_proj if scan == '180' else 2 * num_proj - 1
    ypos = y_s + (index - 1) * pixel
    i0 = ctx.ceil((y_e - ypos) / step)
    if not full:
        valid = ctx.all([index >= 0, index <= maxi])
        if not bool(valid):
            ctx.raises('index out of range', ValueError, lambda: fn(
                index, data, num_proj, pixel, ys, ye, pitch, **kw))
            return
    i0 = int(i0)
    last = i0 + nused - 1
    if full and (i0 < 0 or last + 1 >= depth):
        ctx.raises('projections out of range', ValueError, lambda: fn(
            index, data, num_proj, pixel, ys, ye, pitch, **kw))
        return
    ctx.assume(0 <= i0 and last < depth)
    rows = []
    lowest = height - 1 - ((last * step) - (y_e - ypos)) / pixel
    if full:
        ctx.check('the last projection still sees the slice', lowest >= 0)
    if not bool(lowest >= 0):
        ctx.raises('rows out of range', ValueError, lambda: fn(
            index, data, num_proj, pixel, ys, ye, pitch, **kw))
        return
    r, a = fn(index, data, num_proj, pixel, ys, ye, pitch, **kw)
    remo = ctx.mod('algotom.prep.removal')
    for i in range(i0, last + 1):
        j = height - 1 - ((i * step) - (y_e - ypos)) / pixel
        jd = int(ctx.floor(j))
        t = j - jd

        def line(k):
            v = data[i, ct + k, cl:cl + width]
            if ff:
                d = dark[ct + k, cl:cl + width]
                v = (v - d) / (flat[ct + k, cl:cl + width] - d)
            if masked:
                v = remo.remove_blob_1d(np.copy(v), np.copy(
                    mk[ct + k, cl:cl + width]))
            return v
        lo = line(jd)
        hi = line(jd + 1) if jd + 1 < height else lo
        rows.append([lo[k] * (1 - t) + hi[k] * t for k in range(width)])
    ctx.equal('rows follow the stage', r, rows)
    if ang:
        ctx.equal('angles', a, angles[i0:last + 1])
    else:
        ctx.equal('angles', a, [180.0 / (num_proj - 1) * i
                                for i in range(i0, last + 1)])


def sino(ctx, **kw):
    _check(ctx, **kw)


def bad_type(ctx):
    calc = ctx.mod('algotom.prep.calculation')
    y = ctx.real('y', 1, 4)
    for f in (lambda: calc.calculate_reconstructable_height(0, y, 1, 'x'),
              lambda: calc.calculate_maximum_index(0, y, 1, 1, '90')):
        ctx.raises('scan type', ValueError, f)


P.case(bad_type)
B = dict(full=False, num_proj=3, pixel=1.0, pitch=4.0, span=6.0, depth=7,
         height=4, width=2, scan='180', ff=False, ang=False,
         crop=(0, 0, 0, 0), masked=False, idx=1)


def add(**kw):
    d = dict(B)
    d.update(kw)
    P.case(sino, **d)


for i in (-1, 0, 1, 2, 3, 4, 5):
    add(idx=i)
for i in (1, 2, 3):
    add(idx=i, ff=True, ang=True, pitch=3.0, span=5.0, depth=8)
    add(idx=i, ff=True, crop=(1, 1, 1, 0), pitch=3.0, span=4.0, depth=8)
add(idx=2, crop=(1, 0, 1, 2), ang=True)
add(idx=2, scan='360', span=10.0, height=5, depth=9)
add(idx=1, scan='360', span=9.0, height=5, depth=9, ff=True, ang=True)
add(idx=3, scan='360', span=9.0, height=5, depth=9)
add(idx=2, pixel=0.5, pitch=2.0, span=3.0, ff=True, depth=9)
add(idx=2, masked=True, width=12, depth=5, span=5.0)
for i in (0, 1, 2, 3, 4):
    add(full=True, idx=i, depth=8, ff=(i == 2), ang=(i != 1))
add(full=True, idx=2, depth=9, pitch=3.0, ff=True, crop=(1, 1, 1, 0),
    span=5.0)
add(full=True, idx=1, depth=12, scan='360', span=9.0, height=5)
add(full=True, idx=2, depth=11, pixel=0.5, pitch=2.0, span=3.0)
add(full=True, idx=2, masked=True, width=12, depth=8)
add(idx=2, masked=True, width=10, depth=5, span=5.0, crop=(1, 0, 1, 2),
    ff=True)
add(full=True, idx=2, masked=True, width=10, depth=8, crop=(1, 0, 2, 1))
for i in (0, 1, 2):     # stage steps much smaller than a pixel
    add(full=True, idx=i, depth=19, pitch=1.0, span=2.0, ang=(i == 1))
add(full=True, idx=1, depth=14, pitch=1.0, span=2.0, height=3, ff=True)
add(full=True, idx=1, depth=20, pitch=0.5, span=1.5, pixel=0.5, scan='360',
    height=3)
