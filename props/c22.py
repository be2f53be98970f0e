"""Bookkeeping of grid scans and slice-wise parallel work."""
import math
import numpy as onp
from engine.registry import Prop

P = Prop('C22', ['util.utility.locate_slice',
                 'util.utility.locate_slice_chunk',
                 'util.utility.fix_non_sample_areas',
                 'util.utility.generate_spiral_positions',
                 'util.utility.parallel_process_slices'],
         'grids of 1..3 x 1..3 cells, images 6 or 8 pixels high, all integer '
         'overlaps 2..3 of every joint, every slice; spirals of 1..6 '
         'positions with symbolic step and shape; data of 1..3 slices along '
         'each axis, all pixel values',
         ['float32 rounding'],
         'overlaps of a single line or of more than half an image; threads '
         'and processes are run one after the other, after pickling')
UT = 'algotom.util.utility'


def joint(ctx, n, h, side, lo=2, hi=3, columns=1):
    """Overlap of every joint between n + 1 rows of the grid."""
    o = [ctx.int('o%d' % i, lo, hi) for i in range(n)]
    if ctx.sym:
        for v in o:     # one path per overlap
            for k in range(lo, hi):
                if v == k:
                    break
    meta = ctx.np.asarray([[[v, side] for _ in range(columns)] for v in o])
    return o, meta


def where_is(ctx, s, h, o, side):
    """Rows showing slice s as (row, line, weight), weights falling linearly
    to zero at the edge of the row inside an overlap."""
    out = []
    start = 0
    for i in range(len(o) + 1):
        p = s - start               # distance from the start of the row
        q = h - 1 - p               # distance from its end
        if (p >= 0) and (q >= 0):
            w = 1.0
            if i > 0 and (p < o[i - 1]):
                w = p / (o[i - 1] - 1.0)
            if i < len(o) and (q < o[i]):
                w = q / (o[i] - 1.0)
            out.append((i, p if side == 1 else q, w))
        if i < len(o):
            start = start + h - o[i]
    return out


def locate(ctx, n, h, side, s, columns=1):
    m = ctx.mod(UT)
    o, meta = joint(ctx, n, h, side, columns=columns)
    want = where_is(ctx, s, h, o, side)
    got = m.locate_slice(s, h, meta)
    ctx.check('number of rows', len(got) == len(want))
    for g, w in zip(got, want):
        for k, a, b in zip(('grid row', 'line', 'weight'), g, w):
            ctx.check(k, abs(a - b) < 1e-6)
    if len(got) == 2:
        ctx.check('weights sum to one', abs(got[0][2] + got[1][2] - 1) < 1e-6)


def chunk(ctx, n, h, side, s, t, columns=1):
    """The same for a range of slices, row by row."""
    m = ctx.mod(UT)
    o, meta = joint(ctx, n, h, side, columns=columns)
    want = {}
    for k in range(s, t):
        for i, p, w in where_is(ctx, k, h, o, side):
            want.setdefault(i, []).append((i, p, w))
    want = [want[i] for i in sorted(want)]
    got = m.locate_slice_chunk(s, t, h, meta)
    ctx.check('number of rows', len(got) == len(want))
    for gr, wr in zip(got, want):
        ctx.check('number of slices', len(gr) == len(wr))
        for g, w in zip(gr, wr):
            for k, a, b in zip(('grid row', 'line', 'weight'), g, w):
                ctx.check(k, abs(a - b) < 1e-6)


def bad_chunk(ctx):
    m = ctx.mod(UT)
    o, meta = joint(ctx, 1, 6, 1)
    ctx.raises('stop before start', ValueError,
               lambda: m.locate_slice_chunk(5, 4, 6, meta))


def fill(ctx, h, w, direction, empty):
    """Cells with sample keep their values; an empty cell with a filled
    neighbour gets the pair (overlap, side) of one cell with sample, a direct
    neighbour along the joints first; the given array is not changed."""
    m = ctx.mod(UT)
    np = ctx.np
    v = ctx.array('v', (h, w), 2, 9)
    s = [[ctx.int('s%d_%d' % (i, j), 0, 1) for j in range(w)]
         for i in range(h)]
    cells = [[(0.0, 0.0) if (i, j) in empty else (v[i, j], s[i][j] * 1.0)
              for j in range(w)] for i in range(h)]
    meta = np.asarray([[[c[0], c[1]] for c in r] for r in cells])
    keep = np.copy(meta)
    k = {} if direction is None else {'direction': direction}
    out = m.fix_non_sample_areas(meta, **k)
    ctx.equal('input untouched', meta, keep)
    ctx.check('shape', tuple(out.shape) == (h, w, 2))
    step = (0, 1) if direction == 'vertical' else (1, 0)
    other = (step[1], step[0])
    full = [(i, j) for i in range(h) for j in range(w)
            if (i, j) not in empty]

    def near(i, j, d):
        r = [(i + e * d[0], j + e * d[1]) for e in (-1, 1)]
        return [q for q in r if q in full]

    def same(p, q):
        return ctx.all([abs(out[p[0], p[1], 0] - cells[q[0]][q[1]][0]) < 1e-6,
                        abs(out[p[0], p[1], 1] - cells[q[0]][q[1]][1]) < 1e-6])
    for i in range(h):
        for j in range(w):
            if (i, j) in full:
                ctx.check('cell with sample', same((i, j), (i, j)))
                continue
            first = near(i, j, step) or near(i, j, other)
            if first:
                ctx.check('copy of the neighbour', ctx.any(
                    [same((i, j), q) for q in first]))
            elif full and reach(i, j, h, w, full) <= 2:
                ctx.check('copy of a cell with sample', ctx.any(
                    [same((i, j), q) for q in full]))
            elif full:
                ctx.check('copy or left empty', ctx.any(
                    [same((i, j), q) for q in full] +
                    [abs(out[i, j, 0]) < 1e-9]))
            else:
                ctx.check('nothing to copy', abs(out[i, j, 0]) < 1e-9)


def reach(i, j, h, w, full):
    return min(abs(i - a) + abs(j - b) for a, b in full)


def spiral(ctx, n, hei, wid, step_hi, default=False):
    """Golden-angle spiral whose radius grows as the square root of the
    index; positions outside the field of view are refused."""
    m = ctx.mod(UT)
    st = ctx.real('step', 0.5, step_hi)
    phi = 2 * math.pi * (1 + math.sqrt(5)) / 2
    got = []
    k = {} if default else {'spiral_shape': 2.0}
    phi += math.pi * (1.0 if default else 2.0)
    pts = [(st * math.sqrt(i) * math.cos(i * phi),
            st * math.sqrt(i) * math.sin(i * phi)) for i in range(n)]
    out = ctx.any([v for x, y in pts for v in
                   (abs(x) > wid // 2 + 1e-3, abs(y) > hei // 2 + 1e-3)])
    inn = ctx.all([v for x, y in pts for v in
                   (abs(x) < wid // 2 - 1e-3, abs(y) < hei // 2 - 1e-3)])
    if out:
        ctx.raises('outside', ValueError, lambda:
                   m.generate_spiral_positions(st, n, hei, wid, **k))
    else:
        ctx.assume(inn)
        got = m.generate_spiral_positions(st, n, hei, wid, **k)
        ctx.check('shape', tuple(got.shape) == (n, 2))
        for i, (x, y) in enumerate(pts):
            ctx.check('x', abs(got[i, 0] - x) < 1e-3)
            ctx.check('y', abs(got[i, 1] - y) < 1e-3)


def scale_first(a, f, g=0.0):
    """Depends on the place inside the slice, not only on values."""
    b = a * f
    b[0, 0] = b[0, 0] + g
    b[:, -1] = a[:, 0]
    return b


def shrink(a):
    return a[:1, :]


def parallel(ctx, shape, axis, method, par, ncore=None, prefer='threads',
             kw=None):
    """The method sees every slice once and the results are put back along
    the same axis."""
    m = ctx.mod(UT)
    np = ctx.np
    a = ctx.array('a', shape)
    keep = np.copy(a)
    f = {'scale': scale_first, 'shrink': shrink}[method]
    k = {} if axis is None else {'axis': axis}
    ax = 1 if axis is None else axis
    out = m.parallel_process_slices(a, f, par, ncore=ncore, prefer=prefer,
                                    **k, **(kw or {}))
    pl = par if isinstance(par, list) else [par]
    al = ctx.nested(keep)

    def cut(i):
        if ax == 0:
            return al[i]
        if ax == 1:
            return [r[i] for r in al]
        return [[v[i] for v in r] for r in al]

    def work(s):
        if method == 'shrink':
            return s[:1]
        q = dict(zip(('f', 'g'), pl), **(kw or {}))
        r = [[v * q['f'] for v in t] for t in s]
        r[0][0] = r[0][0] + q.get('g', 0.0)
        for t, u in zip(r, s):
            t[-1] = u[0]
        return r
    res = [work(cut(i)) for i in range(shape[ax])]
    hh, ww = len(res[0]), len(res[0][0])
    if ax == 0:
        want = res
    elif ax == 1:
        want = [[res[i][y] for i in range(shape[1])] for y in range(hh)]
    else:
        want = [[[res[i][y][x] for i in range(shape[2])] for x in range(ww)]
                for y in range(hh)]
    ctx.equal('slices', out, want)
    ctx.check('type', str(out.dtype) == 'float32')
    if method == 'shrink' or prefer == 'processes':
        ctx.equal('input untouched', a, keep)


def removed(ctx):
    m = ctx.mod(UT)
    a = ctx.array('a', (2, 2, 2))
    ctx.raises('removed function', NotImplementedError, lambda:
               m.apply_method_to_multiple_sinograms(a, 'x', [1]))


for side in (0, 1):
    for s in range(-1, 7):
        P.case(locate, n=1, h=6, side=side, s=s, columns=1 + s % 2)
    for s in range(2, 20):
        P.case(locate, n=3, h=6, side=side, s=s)
    for s, t in ((0, 6), (3, 12), (7, 20), (4, 4), (18, 26)):
        P.case(chunk, n=3, h=6, side=side, s=s, t=t)
    P.case(chunk, n=1, h=8, side=side, s=2, t=12, columns=2)
    P.case(chunk, n=2, h=8, side=side, s=0, t=22, columns=2)
P.case(bad_chunk)
E3 = [(i, j) for i in range(3) for j in range(3)]
for d in (None, 'horizontal', 'vertical'):
    for e in ([], [(1, 1)], [(1, 1), (1, 2)], [(0, 0), (0, 1), (0, 2)],
              [(0, 0), (1, 0), (2, 0)], [c for c in E3 if c != (1, 1)],
              [c for c in E3 if c != (2, 2)], [c for c in E3 if c != (0, 2)],
              [(0, 1), (1, 0), (1, 2), (2, 1)], list(E3),
              [(0, 0), (1, 1), (2, 2), (1, 2), (0, 1)]):
        P.case(fill, h=3, w=3, direction=d, empty=e)
    P.case(fill, h=1, w=3, direction=d, empty=[(0, 1)])
    P.case(fill, h=3, w=1, direction=d, empty=[(0, 0), (2, 0)])
    P.case(fill, h=2, w=4, direction=d, empty=[(0, 0), (0, 1), (1, 3)])
for n, s in ((1, 5), (4, 5), (6, 3)):
    P.case(spiral, n=n, hei=8, wid=10, step_hi=s, default=n == 4)
for ax in (None, 0, 1, 2):
    P.case(parallel, shape=(2, 3, 2), axis=ax, method='scale', par=[2.0, 1.0])
    P.case(parallel, shape=(3, 1, 2), axis=ax, method='scale', par=3.0,
           ncore=2, prefer='processes', kw={'g': 0.5})
    P.case(parallel, shape=(2, 2, 3), axis=ax, method='shrink', par=[],
           ncore=0)
P.case(removed)
