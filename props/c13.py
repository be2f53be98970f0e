"""Zinger and blob removal."""
import numpy as onp
from engine.registry import Prop
from props.common import mean, med, refl, median2d, srt
from props.c12 import away, sort_fork, flags, dilate

P = Prop('C13', ['prep.removal.remove_zinger', 'prep.removal.select_zinger',
                 'prep.removal.check_zinger_size',
                 'prep.removal.generate_blob_mask',
                 'prep.removal.remove_blob', 'prep.removal.remove_blob_1d'],
         'images of 4x5 .. 7x8 pixels: all pixels symbolic for blobs and for '
         'the neighbourhood mean of a zinger, one or two symbolic zingers on '
         'a fixed background, listed masks, window sizes 1..3',
         ['values are not within 1e-3 of a threshold'],
         'larger images, masks flagging whole lines')
REM = 'algotom.prep.removal'


def ring(size):
    step = max(1, size)
    r = range(-size, size + 1, step)
    return [(i, j) for i in r for j in r if i or j]


def around(a, y, x, size):
    h, w = len(a), len(a[0])
    return mean([a[(y - i) % h][(x - j) % w] for i, j in ring(size)])


def zinger(ctx, h, w, size, thr, where, lo=0.5, hi=6, seed=0):
    """Pixels brighter than their neighbourhood by the threshold take its
    mean; nothing else changes."""
    m = ctx.mod(REM)
    np = ctx.np
    g = onp.random.RandomState(h * w + seed)
    al = [[round(1.0 + 0.2 * float(g.rand()), 3) for _ in range(w)]
          for _ in range(h)]
    x = ctx.list(ctx.array('x', (len(where),), lo, hi))
    for (i, j), v in zip(where, x):
        al[i][j] = v
    a = np.asarray(al)
    keep = np.copy(a)
    want = [list(r) for r in al]
    for i in range(h):
        for j in range(w):
            n = around(al, i, j, size)
            if away(ctx, al[i][j], n * (1 + thr), 1e-3):
                want[i][j] = n
    out = m.remove_zinger(a, thr, size)
    ctx.equal('zingers take the neighbourhood mean', out, want)
    ctx.equal('input untouched', a, keep)


def zero_around(ctx, h, w, size):
    """A neighbourhood of zeros counts as one."""
    m = ctx.mod(REM)
    x = ctx.real('x', 0.5, 6)
    al = [[x if (i, j) == (2, 2) else 0.0 for j in range(w)]
          for i in range(h)]
    want = [list(r) for r in al]
    if away(ctx, x, 1.5, 1e-3):
        want[2][2] = 1.0
    # its neighbours see x / n
    n = len(ring(size))
    ctx.equal('lonely zinger', m.remove_zinger(ctx.np.asarray(al), 0.5, size),
              want)


def size_limit(ctx, h, w, blobs, size, max_ok):
    """With check_size only groups of at most `size` pixels are treated."""
    m = ctx.mod(REM)
    np = ctx.np
    k = ctx.real('k', 30, 60)
    al = [[1.0] * w for _ in range(h)]
    for g in blobs:
        for i, j in g:
            al[i][j] = k
    a = np.asarray(al)
    keep = np.copy(a)
    want = [list(r) for r in al]
    for g in blobs:
        if len(g) <= size:
            for i, j in g:
                want[i][j] = around(al, i, j, size)
    out = m.remove_zinger(a, 0.5, size, check_size=True)
    ctx.equal('small groups only', out, want)
    ctx.equal('input untouched', a, keep)
    full = m.remove_zinger(a, 0.5, size)
    hot = [p for g in blobs for p in g]
    ref = [[around(al, i, j, size) if (i, j) in hot else 1.0
            for j in range(w)] for i in range(h)]
    ctx.equal('without the check', full, ref)


def select(ctx, mask, size):
    m = ctx.mod(REM)
    np = ctx.np
    lab = {}
    h, w = len(mask), len(mask[0])
    for i in range(h):
        for j in range(w):
            if mask[i][j] and (i, j) not in lab:
                grp, todo = [], [(i, j)]
                lab[i, j] = grp
                while todo:
                    p = todo.pop()
                    grp.append(p)
                    for d in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                        q = (p[0] + d[0], p[1] + d[1])
                        if 0 <= q[0] < h and 0 <= q[1] < w and \
                                mask[q[0]][q[1]] and q not in lab:
                            lab[q] = grp
                            todo.append(q)
    n = ctx.int('n', 1, size)
    want = [[ctx.ite(n >= len(lab[i, j]), 1.0, 0.0) if (i, j) in lab else 0.0
             for j in range(w)] for i in range(h)]
    a = np.asarray([[float(v) for v in r] for r in mask])
    keep = np.copy(a)
    ctx.equal('groups up to the size', m.select_zinger(a, n), want)
    ctx.equal('input untouched', a, keep)


def line(ctx, v, bad):
    """Straight line between the nearest good points."""
    out = list(v)
    for c in range(len(v)):
        if bad[c]:
            lo = hi = c
            while bad[lo]:
                lo -= 1
            while bad[hi]:
                hi += 1
            t = (c - lo) / (hi - lo)
            out[c] = v[lo] * (1 - t) + v[hi] * t
    return out


def _inner(mask):
    w = len(mask)
    return [bool(b) and 2 <= c < w - 2 for c, b in enumerate(mask)]


def blob1d(ctx, mask):
    m = ctx.mod(REM)
    np = ctx.np
    v = ctx.array('v', (len(mask),))
    mk = np.asarray([float(b) for b in mask])
    v0, m0 = np.copy(v), np.copy(mk)
    out = m.remove_blob_1d(v, mk)
    ctx.equal('bridged', out, line(ctx, ctx.list(v), _inner(mask)))
    ctx.equal('inputs untouched', [v, mk], [v0, m0])


def blob2d(ctx, masks):
    m = ctx.mod(REM)
    np = ctx.np
    h, w = len(masks), len(masks[0])
    a = ctx.array('a', (h, w))
    mk = np.asarray([[float(b) for b in r] for r in masks])
    a0, m0 = np.copy(a), np.copy(mk)
    out = m.remove_blob(a, mk)
    ctx.equal('bridged along rows', out, [
        line(ctx, r, _inner(b)) for r, b in zip(ctx.nested(a), masks)])
    ctx.equal('inputs untouched', [a, mk], [a0, m0])
    ctx.equal('row by row', out, [m.remove_blob_1d(a[i], mk[i])
                                  for i in range(h)])


def any_mask(ctx, w):
    """For every mask: flagged inner points only change, and lie between
    the nearest good ones."""
    m = ctx.mod(REM)
    np = ctx.np
    b = ctx.list(ctx.array('b', (w,), 0, 1, dtype='int64'))
    mask = [1 if t == 1 else 0 for t in b]
    v = ctx.array('v', (w,))
    mk = np.asarray([float(t) for t in mask])
    out = m.remove_blob_1d(v, mk)
    ctx.equal('bridged', out, line(ctx, ctx.list(v), _inner(mask)))


def wrong(ctx):
    m = ctx.mod(REM)
    a = ctx.array('a', (3, 6))
    ctx.raises('shapes', ValueError,
               lambda: m.remove_blob(a, ctx.np.zeros((3, 5))))
    ctx.raises('shapes', ValueError,
               lambda: m.remove_blob(a, ctx.np.zeros((2, 6))))


def blob_mask(ctx, h, w, size, snr, p, rng, seed=1):
    """Every row of the lightly smoothed flat field is normalised by its
    background and its outliers are flagged."""
    m = ctx.mod(REM)
    np = ctx.np
    g = onp.random.RandomState(h * w + seed)
    al = [[round(2.0 + 0.3 * float(g.rand()), 3) for _ in range(w)]
          for _ in range(h)]
    k = ctx.real('k', *rng)
    for q in p:
        al[q[0]][q[1]] = al[q[0]][q[1]] + k
    a = np.asarray(al)
    keep = np.copy(a)
    s = median2d(ctx, al, 2, 2)
    want = []
    for r in s:
        sort_fork(ctx, r)
        f = [med(ctx, [r[refl(c - size // 2 + i, w)] for i in range(size)])
             for c in range(w)]
        fl = flags(ctx, [x / y for x, y in zip(r, f)], snr)
        fl = [t and 2 <= c < w - 2 for c, t in enumerate(fl)]
        want.append([1.0 if t else 0.0 for t in dilate(fl)])
    out = m.generate_blob_mask(a, size, snr)
    ctx.equal('outliers of every row', out, want)
    ctx.equal('input untouched', a, keep)


for h, w, size, thr, where in ((5, 6, 2, 0.5, [(2, 3)]),
                               (4, 5, 1, 0.3, [(0, 4)]),
                               (5, 5, 1, 0.25, [(2, 2), (2, 3)]),
                               (7, 8, 3, 0.25, [(6, 0)]),
                               (6, 7, 2, 1.0, [(0, 0), (2, 2)])):
    P.case(zinger, h=h, w=w, size=size, thr=thr, where=where)
P.case(zero_around, h=5, w=6, size=1)
P.case(zero_around, h=5, w=5, size=2)
P.case(size_limit, h=7, w=9, blobs=[[(1, 1)], [(4, 5), (4, 6), (4, 7)]],
       size=2, max_ok=2)
P.case(size_limit, h=8, w=9, blobs=[[(1, 1), (1, 2), (2, 1)], [(6, 6)]],
       size=3, max_ok=3)
P.case(size_limit, h=7, w=8, blobs=[[(1, 1), (1, 2)], [(5, 5)]],
       size=1, max_ok=1)
M1 = [[1, 1, 0, 0, 0, 1], [1, 0, 0, 1, 0, 0], [0, 0, 1, 1, 1, 0],
      [0, 0, 0, 0, 0, 0], [1, 0, 1, 1, 1, 1]]
P.case(select, mask=M1, size=6)
P.case(select, mask=[[1, 0, 1], [0, 0, 0], [1, 1, 1]], size=4)
# groups with others inside the box around them
P.case(select, mask=[[1, 1, 1, 1], [1, 0, 0, 1], [1, 0, 1, 1],
                     [1, 0, 0, 0], [1, 0, 1, 0]], size=11)
P.case(select, mask=[[1, 0, 0, 1], [0, 1, 0, 1], [1, 1, 0, 0]], size=4)
P.case(size_limit, h=8, w=9, blobs=[[(1, 1), (1, 2), (1, 3), (2, 1), (3, 1)],
                                    [(3, 3)]], size=2, max_ok=2)
P.case(size_limit, h=8, w=9, blobs=[[(2, 2), (3, 2), (3, 3)], [(2, 4)],
                                    [(1, 3)]], size=2, max_ok=2)
for mask in ((0, 0, 0, 1, 0, 0, 0), (1, 1, 1, 0, 1, 1, 0, 0), (1,) * 3
             + (0,) * 3 + (1,) * 4, (0, 0, 1, 1, 1, 1, 1, 0, 0), (0,) * 5,
             (0, 1, 1, 0, 1, 1, 1)):
    P.case(blob1d, mask=mask)
P.case(blob2d, masks=[(0, 0, 0, 1, 1, 0, 0), (1, 1, 1, 0, 0, 0, 0),
                      (0, 0, 0, 0, 0, 0, 0), (0, 0, 0, 0, 1, 1, 1)])
P.case(blob2d, masks=[(0, 0, 1, 0, 0, 0), (0, 0, 1, 1, 0, 0)])
P.case(blob2d, masks=[(0, 0, 1, 1, 0, 0, 0), (0, 0, 0, 1, 1, 0, 0),
                      (0, 0, 1, 0, 1, 0, 0), (1, 0, 1, 0, 1, 0, 0)])
P.case(any_mask, w=7)
P.case(any_mask, w=9, tier='thorough')
P.case(wrong)
for sd in (4, 5):
    P.case(blob_mask, h=2, w=12, size=7, snr=2.0,
           p=[(0, 5), (1, 5), (0, 6), (1, 6)], rng=(0.5, 4), seed=sd)
for sd in (0, 1, 3):
    P.case(blob_mask, h=2, w=14, size=9, snr=1.5, p=[(0, 3), (1, 3)],
           rng=(-1.5, -0.8), seed=sd)
P.case(blob_mask, h=3, w=11, size=5, snr=3.0,
       p=[(1, 4), (0, 4), (1, 5), (2, 5)], rng=(-1, 1), seed=1,
       tier='thorough', budget=600)
