"""360-degree sinograms: conversion, doubling and extension geometry."""
from engine.registry import Prop

P = Prop('C04', ['prep.conversion.convert_sinogram_360_to_180',
                 'prep.conversion.convert_sinogram_180_to_360',
                 'prep.conversion.extend_sinogram'],
         'sinograms of 3..7 rows and 6..9 columns (24 for fractional '
         'centres), every rotation centre on the half-pixel grid that leaves '
         'an overlap of 2 columns or more, all pixel values',
         [], 'centres outside the half-pixel grid except affine profiles')
CONV = 'algotom.prep.conversion'


def _offset_scan(ctx, m, ncol, c2, lo=-4, hi=4):
    """An offset 360-degree scan (2m+1 rows) of an arbitrary object: row i
    sees f_i(x - c), row i+m sees f_i(c - x).  c = c2/2.
    Returns sinogram rows and f as a dict (row, 2*(x-c)) -> value."""
    np = ctx.np
    c2 = int(c2)
    lim = max(abs(-c2), abs(2 * (ncol - 1) - c2))
    offs = list(range(-lim, lim + 1))
    offs = [o for o in offs if (o + c2) % 2 == 0 or (-o + c2) % 2 == 0]
    f = ctx.array('f', (m, len(offs)), lo, hi)
    val = {}
    for i in range(m):
        for k, o in enumerate(offs):
            val[i, o] = f[i, k]
    for o in offs:               # row m is row 0 seen from the other side
        val[m, o] = val[0, -o]
    rows = []
    for i in range(m + 1):
        rows.append([val[i, 2 * x - c2] for x in range(ncol)])
    for i in range(1, m + 1):
        rows.append([val[i, c2 - 2 * x] for x in range(ncol)])
    return np.asarray(rows), val


def to_180(ctx, m, ncol, c2, norm, tup, extra):
    np = ctx.np
    mod = ctx.mod(CONV)
    sino, val = _offset_scan(ctx, m, ncol, c2, 0.25 if norm else -4, 4)
    keep = np.copy(sino)
    c = c2 / 2.0
    if tup:
        cor = (2 * c + 1, 0) if c <= (ncol - 1) / 2.0 else (
            2 * (ncol - c) - 1, 1)
    else:
        cor = c
    ov = c2 + 1 if c <= (ncol - 1) / 2.0 else 2 * ncol - c2 - 1
    width = 2 * ncol - ov
    tw = None if extra is None else width + extra
    r, cor1 = mod.convert_sinogram_360_to_180(sino, cor, norm=norm,
                                              total_width=tw)
    exp = []
    for i in range(m + 1):
        row = [val[i, 2 * x - (width - 1)] for x in range(width)]
        if extra is not None and extra > 0:
            row = row + [row[-1]] * extra
        exp.append(row)
    ctx.equal('full field of view', r, exp)
    ctx.equal('centre of the result', cor1, (width - 1) / 2.0)
    ctx.equal('input untouched', sino, keep)


def to_180_weights(ctx, side):
    mod = ctx.mod(CONV)
    np = ctx.np
    sino = ctx.array('s', (5, 6), -2, 2)
    wa = ctx.array('wa', (3, 6), 0, 1)
    wb = ctx.array('wb', (3, 6), 0, 1)
    r, c = mod.convert_sinogram_360_to_180(sino, (3, side), wei_mat1=wa,
                                           wei_mat2=wb, norm=False)
    e = mod.stitch_image(sino[:3], np.fliplr(sino[2:]), 3, side, wei_mat1=wa,
                         wei_mat2=wb, norm=False)
    ctx.equal('weights used', r, e)
    ctx.equal('centre', c, 6 - 1.5 - 0.5)


def fractional(ctx, side, frac, what):
    """Profile affine on each side of the axis, fractional centre: result is
    that profile around the returned centre."""
    np = ctx.np
    mod = ctx.mod(CONV)
    ncol = 30
    c = 8.0 + frac / 2.0 if side == 0 else ncol - 9.0 - frac / 2.0
    p = ctx.real('p', -2, 2)
    q = ctx.real('q', -0.5, 0.5)
    x = np.arange(ncol) * 1.0
    a = p + q * (x - c)
    b = p - q * (x - c)
    sino = np.vstack([a, b, a])
    if what == '180':
        r, c1 = mod.convert_sinogram_360_to_180(sino, c, norm=False)
        n = r.shape[1]
        for k in range(8, n - 8):
            ctx.equal('profile about returned centre', r[0, k],
                      p + q * (k - c1), tol=0.02)
    else:
        r, c1 = mod.extend_sinogram(sino, c, apply_log=False)
        n = r.shape[1]
        lo, hi = (22, 30) if side == 1 else (n - 30, n - 22)
        lo, hi = (4, 10) if side == 1 else (n - 10, n - 4)
        for k in range(lo, hi):
            ctx.equal('profile about returned centre', r[0, k],
                      2 * (p + q * (k - c1)), tol=0.02)


def to_360(ctx, n, ncol, sh):
    """Rows beyond 180 degrees are the mirror image about the centre."""
    mod = ctx.mod(CONV)
    np = ctx.np
    s = ctx.array('s', (n, ncol), -4, 4)
    keep = np.copy(s)
    c = (ncol - 1) / 2.0 + sh
    r = mod.convert_sinogram_180_to_360(s, c)
    ctx.equal('rows', r.shape, (2 * n - 1, ncol))
    ctx.equal('first half', r[:n], keep)
    for i in range(1, n):
        for x in range(ncol):
            y = int(2 * c) - x
            if 0 <= y < ncol:
                ctx.equal('mirror', r[n - 1 + i, x], keep[i, y])


def extend(ctx, m, ncol, c2, tup):
    """Opposite rows of the extended sinogram add up to twice the full
    projection, around the returned centre."""
    np = ctx.np
    mod = ctx.mod(CONV)
    sino, val = _offset_scan(ctx, m, ncol, c2)
    keep = np.copy(sino)
    c = c2 / 2.0
    left = c <= (ncol - 1) / 2.0
    ov = c2 + 1 if left else 2 * ncol - c2 - 1
    cor = ((ov, 0) if left else (ov, 1)) if tup else c
    r, cor1 = mod.extend_sinogram(sino, cor, apply_log=False)
    width = 2 * ncol - ov
    ctx.equal('centre of the result', cor1, (width - 1) / 2.0)
    ctx.equal('shape', r.shape, (2 * m + 1, width))
    got, exp = [], []
    for i in range(m + 1):
        for x in range(width):
            got.append(r[i, x] + r[i + m, width - 1 - x])
            exp.append(2 * val[i, 2 * x - (width - 1)])
    ctx.equal('opposite rows complete each other', got, exp)
    ctx.equal('input untouched', sino, keep)


def extend_log(ctx, side):
    np = ctx.np
    mod = ctx.mod(CONV)
    s = ctx.array('s', (3, 6), 0.1, 4)
    keep = np.copy(s)
    r, c = mod.extend_sinogram(s, (3, side))
    r2, c2 = mod.extend_sinogram(-np.log(keep), (3, side), apply_log=False)
    ctx.equal('negative log first', r, r2)
    ctx.equal('same centre', c, c2)
    ctx.equal('input untouched', s, keep)


for ncol in (6, 7):
    for c2 in (2, 3, 4, ncol - 1, 2 * ncol - 6, 2 * ncol - 5, 2 * ncol - 4):
        for norm in ((True, False) if c2 in (3, 2 * ncol - 5) else (False,)):
            P.case(to_180, m=2, ncol=ncol, c2=c2, norm=norm,
                   tup=(c2 % 2 == 0), extra=2 if c2 == 3 else None)
        P.case(extend, m=2, ncol=ncol, c2=c2, tup=(c2 % 2 == 1))
for side in (0, 1):
    P.case(to_180_weights, side=side)
    P.case(extend_log, side=side)
    for fr in (0.25, 0.75, 0.5):
        for w in ('180', 'ext'):
            P.case(fractional, side=side, frac=fr, what=w)
P.case(to_180, m=3, ncol=9, c2=5, norm=True, tup=False, extra=None)
P.case(to_180, m=3, ncol=9, c2=12, norm=False, tup=False, extra=1)
P.case(extend, m=3, ncol=9, c2=12, tup=False)
for n, ncol, sh in ((2, 6, 0), (3, 6, 1), (3, 7, -2), (2, 7, 2), (3, 8, -1)):
    P.case(to_360, n=n, ncol=ncol, sh=sh)
