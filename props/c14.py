"""Back projection: geometry, CPU = GPU = chunks, every schedule."""
import math
import numpy as onp
from engine import track
from engine.registry import Prop

P = Prop('C14', ['rec.reconstruction.back_projection_cpu',
                 'rec.reconstruction.back_projection_gpu',
                 'rec.reconstruction.back_projection_gpu_chunk',
                 'rec.vertrec.vertical_back_projection_cpu',
                 'rec.vertrec.vertical_back_projection_cpu_chunk',
                 'rec.vertrec.vertical_back_projection_gpu',
                 'rec.vertrec.vertical_back_projection_gpu_chunk',
                 'rec.vertrec._get_points_single_line',
                 'rec.vertrec._get_points_multiple_lines',
                 'rec.vertrec._get_points_multiple_lines_different_angles'],
         'sinograms of 2..4 angles x 3..7 columns and stacks of up to 3 '
         'slices, all pixels symbolic, listed angles and centers, symbolic '
         'center for single pixels rows; lines at listed angles with a '
         'symbolic index',
         ['float32 rounding; sampled points are not within 1e-4 of the '
          'detector ends', 'the GPU kernels run as threads on the CPU '
          '(real code replayed on the CUDA simulator)'],
         'larger sinograms; rounding')
REC = 'algotom.rec.reconstruction'
VER = 'algotom.rec.vertrec'


def lerp(row, p, edge):
    n = len(row) - 1
    assert abs(p) > 1e-4 or p == 0, p
    assert abs(p - n) > 1e-4 or p == n, p
    if p < 0 or p > n:
        if not edge:
            return 0.0
        return row[0] if p < 0 else row[n]
    k = int(math.floor(p + 1e-9))
    f = p - k
    if abs(f) < 1e-9:
        return row[k]
    return row[k] * (1 - f) + row[k + 1] * f


def bp(sino, angles, center, edge):
    w = len(sino[0])
    ic = 0.5 * (w - 1)
    out = []
    for y in range(w):
        r = []
        for x in range(w):
            s = 0.0
            for row, t in zip(sino, angles):
                p = (x - ic) * math.cos(t) - (y - ic) * math.sin(t) + center
                s = s + lerp(row, p, edge)
            r.append(s)
        out.append(r)
    return out


def vbp(proj, angles, xs, ys, center, edge):
    out = []
    for i in range(len(proj[0])):
        r = []
        for x, y in zip(xs, ys):
            s = 0.0
            for p, t in zip(proj, angles):
                s = s + lerp(p[i], x * math.cos(t) + y * math.sin(t) + center,
                             edge)
            r.append(s)
        out.append(r)
    return out


def single(ctx, w, angles, center, edge, block=(16, 16)):
    m = ctx.mod(REC)
    np = ctx.np
    s = ctx.array('s', (len(angles), w))
    keep = np.copy(s)
    a = np.asarray(list(angles))
    want = bp(ctx.nested(s), angles, center, edge)
    ctx.equal('cpu', m.back_projection_cpu(
        np.float32(s), np.float32(a), np.float32(center), edge_pad=edge), want)
    ctx.equal('gpu', m.back_projection_gpu(
        s, a, center, block=block, edge_pad=edge), want)
    ctx.equal('input untouched', s, keep)


def chunk(ctx, w, n, angles, center, edge, block=(16, 16)):
    m = ctx.mod(REC)
    np = ctx.np
    s = ctx.array('s', (len(angles), n, w))
    keep = np.copy(s)
    a = np.asarray(list(angles))
    out = m.back_projection_gpu_chunk(s, a, center, block=block,
                                      edge_pad=edge)
    for j in range(n):
        ctx.equal('slice', out[:, j, :], bp(ctx.nested(s[:, j, :]), angles,
                                            center, edge))
    ctx.equal('input untouched', s, keep)


def any_center(ctx, w, angle, lo, hi, edge):
    """One angle, every center in a range that keeps the cells."""
    m = ctx.mod(REC)
    np = ctx.np
    s = ctx.array('s', (1, w))
    c = ctx.real('c', lo, hi)
    row = ctx.nested(s)[0]
    ic = 0.5 * (w - 1)
    n = w - 1
    want = []
    for y in range(w):
        r = []
        for x in range(w):
            p = (x - ic) * math.cos(angle) - (y - ic) * math.sin(angle) + c
            v = 0.0
            if edge:
                v = ctx.ite(p < 0, row[0], row[n])
            for k in range(n):
                v = ctx.ite(ctx.all([p >= k, p <= k + 1]),
                            row[k] * (1 - (p - k)) + row[k + 1] * (p - k), v)
            for q in (0, n):
                ctx.assume(ctx.any([p - q > 1e-3, q - p > 1e-3]))
            r.append(v)
        want.append(r)
    ctx.equal('cpu', m.back_projection_cpu(
        np.float32(s), np.float32(np.asarray([angle])), c, edge_pad=edge),
        want)


def vertical(ctx, h, w, n, angles, center, alpha, idx, edge, block=(16, 16)):
    m = ctx.mod(VER)
    np = ctx.np
    d = len(angles)
    s = ctx.array('s', (d, h, w))
    keep = np.copy(s)
    a = np.asarray(list(angles))
    al = math.radians(alpha)
    c0 = math.ceil(0.5 * (w - 1))
    lines = []
    for k in range(n):
        q = idx + k - c0
        lines.append(([q * math.sin(al) + t * math.cos(al)
                       for t in range(-c0, w - c0)],
                      [-q * math.cos(al) + t * math.sin(al)
                       for t in range(-c0, w - c0)]))
    xm = np.asarray([q[0] for q in lines])
    ym = np.asarray([q[1] for q in lines])
    sl = ctx.nested(s)
    want = [vbp(sl, angles, q[0], q[1], center, edge) for q in lines]
    cpu = m.vertical_back_projection_cpu_chunk(s, a, xm, ym, center,
                                               edge_pad=edge)
    ctx.equal('cpu chunk', cpu, want)
    ctx.equal('gpu chunk', m.vertical_back_projection_gpu_chunk(
        s, a, xm, ym, center, edge_pad=edge, block=block), want)
    ctx.equal('cpu', m.vertical_back_projection_cpu(
        s, a, xm[0], ym[0], center, edge_pad=edge), want[0])
    ctx.equal('gpu', m.vertical_back_projection_gpu(
        s, a, xm[0], ym[0], center, edge_pad=edge, block=block), want[0])
    ctx.equal('input untouched', s, keep)


def consistent(ctx, h, w, angles, center, idx):
    """A vertical slice at 0 degree holds one row of every horizontal
    slice (odd width)."""
    m, v = ctx.mod(REC), ctx.mod(VER)
    np = ctx.np
    s = ctx.array('s', (len(angles), h, w))
    a = np.asarray(list(angles))
    xs, ys = v._get_points_single_line(idx, 0.0, w)
    out = v.vertical_back_projection_cpu(s, a, xs, ys, center)
    want = [m.back_projection_cpu(s[:, i, :], a, center)[idx]
            for i in range(h)]
    ctx.equal('same as the horizontal slices', out, want)
    xs, ys = v._get_points_single_line(idx, 90.0, w)
    out = v.vertical_back_projection_cpu(s, a, xs, ys, center)
    want = [m.back_projection_cpu(s[:, i, :], a, center)[::-1, idx]
            for i in range(h)]
    ctx.equal('same as the horizontal slices', out, want)


def points(ctx, w, alpha):
    """Unit steps along the line x sin(a) - y cos(a) = index - center."""
    m = ctx.mod(VER)
    k = ctx.real('k', 0, w - 1)
    xs, ys = m._get_points_single_line(k, alpha, w)
    c0 = math.ceil(0.5 * (w - 1))
    al = math.radians(alpha)
    ctx.equal('x', xs, [(k - c0) * math.sin(al) + t * math.cos(al)
                        for t in range(-c0, w - c0)])
    ctx.equal('y', ys, [(k - c0) * (-math.cos(al)) + t * math.sin(al)
                        for t in range(-c0, w - c0)])


def point_sets(ctx, w, start, stop, step, alphas):
    m = ctx.mod(VER)
    idx = list(range(start, stop + 1, step))
    xm, ym = m._get_points_multiple_lines(start, stop, alphas[0], w, step)
    one = [m._get_points_single_line(i, alphas[0], w) for i in idx]
    ctx.equal('x', xm, [ctx.nested(q[0]) for q in one])
    ctx.equal('y', ym, [ctx.nested(q[1]) for q in one])
    k = ctx.real('k', 0, w - 1)
    lst = [k] + list(range(len(alphas) - 1))
    xm, ym = m._get_points_multiple_lines_different_angles(
        lst, list(alphas), w)
    one = [m._get_points_single_line(i, t, w) for i, t in zip(lst, alphas)]
    ctx.equal('x', xm, [ctx.nested(q[0]) for q in one])
    ctx.equal('y', ym, [ctx.nested(q[1]) for q in one])


def ranges(ctx):
    m = ctx.mod(VER)
    for a in (-0.5, 180.5):
        ctx.raises('angle', ValueError,
                   lambda: m._get_points_single_line(1, a, 5))
    for i in (-1, 5):
        ctx.raises('index', ValueError,
                   lambda: m._get_points_single_line(i, 10, 5))


def _big(kind):
    """Parallel run of the real code against its own sequential run."""
    import importlib
    import numba
    m = importlib.import_module(REC if kind == 'h' else VER)
    g = onp.random.RandomState(0)
    a = onp.deg2rad(onp.linspace(0, 180, 181))
    if kind == 'h':
        s = onp.float32(g.rand(181, 128))
        f = (lambda: m.back_projection_cpu(s, a, 63.5))
    else:
        s = onp.float32(g.rand(60, 64, 64))
        a = a[:60]
        xm, ym = m._get_points_multiple_lines(0, 63, 20.0, 64)
        if kind == 'v':
            f = (lambda: m.vertical_back_projection_cpu(s, a, xm[9], ym[9],
                                                        31.2))
        else:
            f = (lambda: m.vertical_back_projection_cpu_chunk(s, a, xm, ym,
                                                              31.2))
    n = numba.get_num_threads()
    numba.set_num_threads(1)
    ref = f()
    numba.set_num_threads(n)
    return all(onp.abs(f() - ref).max() < 1e-2 for _ in range(5))


def schedules(ctx, kind):
    m, v = ctx.mod(REC), ctx.mod(VER)
    np = ctx.np
    a = np.asarray([0.1, 0.9, 2.0])
    c = 1.3
    ctx.track_races()
    if kind == 'h':
        s = ctx.array('s', (3, 4))
        for edge in (False, True):
            m.back_projection_cpu(s, a, c, edge_pad=edge)
        ctx.no_race('back_projection_cpu', lambda: _big(kind))
        return
    s = ctx.array('s', (3, 3, 4))
    xm, ym = v._get_points_multiple_lines(0, 2, 20.0, 4)
    for edge in (False, True):
        if kind == 'v':
            v.vertical_back_projection_cpu(s, a, xm[1], ym[1], c,
                                           edge_pad=edge)
        else:
            v.vertical_back_projection_cpu_chunk(s, a, xm, ym, c,
                                                 edge_pad=edge)
    ctx.no_race('vertical back projection on the CPU', lambda: _big(kind))


def gpu_threads(ctx, block):
    """No two GPU threads share a pixel."""
    m, v = ctx.mod(REC), ctx.mod(VER)
    np = ctx.np
    a = np.asarray([0.1, 0.9])
    s = ctx.array('s', (2, 2, 3))
    xm, ym = v._get_points_multiple_lines(0, 2, 20.0, 3)

    def run():
        for edge in (False, True):
            m.back_projection_gpu(s[:, 0], a, 1.2, block=block, edge_pad=edge)
            m.back_projection_gpu_chunk(s, a, 1.2, block=block, edge_pad=edge)
            v.vertical_back_projection_gpu(s, a, xm[1], ym[1], 1.2,
                                           block=block, edge_pad=edge)
            v.vertical_back_projection_gpu_chunk(s, a, xm, ym, 1.2,
                                                 block=block, edge_pad=edge)
    if ctx.sym:
        ctx.track_races()
        run()
    ctx.no_race('GPU threads', lambda: track.cuda_races(run))


A3 = (0.13, 1.21, 2.7)
A2 = (0.0, 0.71)
for edge in (False, True):
    P.case(single, w=4, angles=A3, center=1.37, edge=edge)
    P.case(single, w=5, angles=A2, center=2.0, edge=edge, block=(2, 3))
    P.case(single, w=5, angles=(-0.4, 3.3, 5.1), center=0.11, edge=edge)
    P.case(chunk, w=4, n=2, angles=A3, center=1.37, edge=edge, block=(4, 2))
    P.case(chunk, w=3, n=3, angles=A2, center=1.0, edge=edge)
    P.case(vertical, h=2, w=4, n=2, angles=A3, center=1.37, alpha=0.0, idx=1,
           edge=edge, block=(3, 2))
    P.case(vertical, h=2, w=5, n=2, angles=A2, center=2.21, alpha=33.0,
           idx=0, edge=edge)
    P.case(vertical, h=3, w=4, n=1, angles=A3, center=0.4, alpha=120.0,
           idx=3, edge=edge)
P.case(single, w=7, angles=A3 + (1.9,), center=3.37, edge=False,
       tier='thorough')
P.case(chunk, w=6, n=3, angles=A3 + (1.9,), center=3.37, edge=True,
       tier='thorough')
P.case(vertical, h=3, w=7, n=3, angles=A3, center=3.21, alpha=155.0, idx=2,
       edge=True, tier='thorough')
P.case(consistent, h=2, w=5, angles=A3, center=1.83, idx=1)
P.case(consistent, h=1, w=5, angles=A3, center=2.3, idx=4)
P.case(consistent, h=2, w=7, angles=A3, center=3.3, idx=4, tier='thorough')
P.case(any_center, w=3, angle=0.3, lo=0.8, hi=1.1, edge=False)
P.case(any_center, w=3, angle=2.0, lo=0.2, hi=1.9, edge=True)
P.case(any_center, w=4, angle=1.1, lo=0.0, hi=3.0, edge=False,
       tier='thorough', budget=300)
for al in (0.0, 17.0, 45.0, 60.0, 90.0, 110.0, 134.0, 135.0, 160.0, 180.0):
    for w in (4, 5):
        P.case(points, w=w, alpha=al)
P.case(point_sets, w=5, start=0, stop=4, step=2, alphas=(20.0, 70.0, 150.0))
P.case(point_sets, w=6, start=1, stop=4, step=1, alphas=(100.0, 30.0))
P.case(ranges)
for kind in 'hvc':
    P.case(schedules, kind=kind)
P.case(gpu_threads, block=(2, 2))
P.case(gpu_threads, block=(16, 16))
