"""Local and global shifts between two images or stacks."""
import numpy as onp
from engine.registry import Prop
from props.common import mean, srt
from props.c23 import planted, texture, CO

P = Prop('C24', ['util.correlation.find_local_shifts',
                 'util.correlation._get_1d_shift_single_row_2d_input',
                 'util.correlation._get_1d_shift_multi_rows_3d_input',
                 'util.correlation._get_1d_shift_full_image_3d_input_cpu',
                 'util.correlation._get_2d_shift_full_image_2d_input',
                 'util.correlation._get_2d_shift_multi_rows_3d_input',
                 'util.correlation._get_2d_shift_full_image_3d_input_cpu',
                 'util.correlation._get_1d_shift_multi_rows_3d_input_gpu',
                 'util.correlation._get_1d_shift_full_image_3d_input_gpu',
                 'util.correlation._get_2d_shift_multi_rows_2d_input_gpu',
                 'util.correlation._get_2d_shift_full_image_2d_input_gpu',
                 'util.correlation._get_2d_shift_multi_rows_3d_input_gpu',
                 'util.correlation._get_2d_shift_full_image_3d_input_gpu',
                 'util.correlation._get_2d_shift_multi_rows_3d_input_cpu_gpu',
                 'util.correlation._get_2d_shift_full_image_3d_input_cpu_gpu',
                 'util.correlation.find_global_shift_based_local_shifts',
                 'util.correlation._find_global_shift_based_local_shifts_cpu',
                 'util.correlation._find_global_shift_based_local_shifts_gpu'],
         'images of 5..8 x 5..8 pixels and stacks of 2, windows of 3 pixels, '
         'sliding by 1 pixel (2 in places), 1..2 symbolic pixels or a '
         'symbolic gain and offset; chunks of 1..100 rows, blocks listed',
         ['float32 rounding',
          'the window-wise search is the one decided by C23'],
         'larger windows and images')


class Windows:
    """Stands in for the search in one window (decided by C23): a distinct
    number for every pixel it is given, so that what reaches it, and where
    its answer goes, can be decided for all values of all pixels."""

    def __init__(self, ctx, m):
        self.ctx, self.m, self.calls = ctx, m, 0
        self.real = getattr(m, 'find_shift_based_correlation_map', None)

    def __enter__(self):
        if self.real is not None:
            self.m.find_shift_based_correlation_map = self.find
        return self

    def __exit__(self, *a):
        if self.real is not None:
            self.m.find_shift_based_correlation_map = self.real

    def find(self, ref_mat, mat, margin=10, axis=None, sub_pixel=True,
             method='diff', dim=2, size=3, gpu=False, block=(16, 16)):
        self.calls += 1
        return self.value(ref_mat, mat, margin, axis, sub_pixel, method, dim,
                          size)

    def value(self, ref, mat, margin, axis, sub_pixel, method, dim, size):
        c = self.ctx
        k = (int(margin) + (0 if axis is None else 7 * int(axis)) +
             (0 if sub_pixel else 31) + (0 if method == 'diff' else 3) +
             (0 if dim == 2 else 5) + (0 if size == 3 else 11))
        x = y = 0.0
        for n, a in ((1.0, ref), (-2.0, mat)):
            for q, v in enumerate(flat(c.nested(a))):
                x = x + n * (q + 1) * v
                y = y + n * (1 + (q * q) % 7 + q * 0.25) * v
        return x + k, y - k


def flat(v):
    if not isinstance(v, list):
        return [v]
    return [u for r in v for u in flat(r)]


GRAIN = onp.random.RandomState(5).randint(1, 10, (3, 14, 14)) * 1.0


def pictures(ctx, shape, gain, offset):
    """A fixed texture; the moving image is another part of it with any
    gain (and offset)."""
    np = ctx.np
    g = ctx.real('g', 0.5, 3) if gain else 1.0
    o = ctx.real('o', 0, 4) if offset else 0.0
    big = GRAIN[tuple(slice(n) for n in shape[:-2]) or 0]
    big = big[..., :shape[-2] + 1, :shape[-1] + 1]
    up = (lambda v: [up(u) for u in v] if isinstance(v, list)
          else v * g + o)
    mov = 2 * big[..., :-1, :-1] + big[..., 1:, 1:] + 0.5 * big[
        ..., ::-1, ::-1][..., 1:, :-1]
    return (np.asarray(big[..., :-1, :-1].tolist()),
            np.asarray(up(mov.tolist())))


def wanted_2d(ctx, m, ref, mat, r, g, one):
    h, w = ref.shape[-2:]
    e, s = r + g, r + g
    xs = [[0.0] * w for _ in range(h)]
    ys = [[0.0] * w for _ in range(h)]
    for i in range(e, h - e):
        for j in range(e, w - e):
            xs[i][j], ys[i][j] = one(
                ref[..., i - s:i + s + 1, j - s:j + s + 1],
                mat[..., i - r:i + r + 1, j - r:j + r + 1], None, 2)
    return xs, ys


def wanted_1d(ctx, m, ref, mat, r, g, norm, one):
    h, w = ref.shape[-2:]
    s = r + g
    xs = [[0.0] * w for _ in range(h)]
    ys = [[0.0] * w for _ in range(h)]
    f = m.normalize_image if norm else (lambda v: v)
    for i in range(h):
        a, b = f(ref[:, i, :]), f(mat[:, i, :])
        for j in range(s, w - s):
            xs[i][j] = one(a[:, j - s:j + s + 1], b[:, j - r:j + r + 1],
                           1, 1)[0]
    for j in range(w):
        a, b = f(ref[:, :, j]), f(mat[:, :, j])
        for i in range(s, h - s):
            ys[i][j] = one(a[:, i - s:i + s + 1], b[:, i - r:i + r + 1],
                           1, 1)[0]
    return xs, ys


def local(ctx, shape, dim=1, win=3, margin=1, norm=False, norm_global=False,
          gpu=False, chunk=100, ncore=1, method='diff', size=3,
          block=(16, 16), whole=False, offset=False):
    """Every pixel further than the margin from the border has the shift of
    its own windows, however the image is cut and wherever it runs; zero at
    the border.  whole: all pixels are symbolic (CPU, search stood in)."""
    m = ctx.mod(CO)
    np = ctx.np
    if whole:
        ref, mat = ctx.array('r', shape), ctx.array('m', shape)
    else:
        ref, mat = pictures(ctx, shape, True, offset)
    k0, k1 = np.copy(ref), np.copy(mat)
    r = win // 2
    args = dict(dim=dim, win_size=win, margin=margin, method=method,
                size=size, gpu=gpu, block=block, ncore=ncore, norm=norm,
                norm_global=norm_global, chunk_size=chunk)
    stack = len(shape) == 3
    a, b = ref, mat
    if (norm and not stack) or (stack and norm_global):
        a, b = m.normalize_image(ref), m.normalize_image(mat)
    if whole:
        with Windows(ctx, m) as stub:
            xs, ys = m.find_local_shifts(ref, mat, **args)
        one = (lambda p, q, axis, d: stub.value(p, q, margin, axis, True,
                                                method, d, size))
        if stub.calls == 0:
            return
    else:
        xs, ys = m.find_local_shifts(ref, mat, **args)
        one = (lambda p, q, axis, d: m.find_shift_based_correlation_map(
            p, q, margin, axis=axis, method=method, dim=d, size=size))
    if stack and dim == 1 and gpu != 'hybrid':
        wx, wy = wanted_1d(ctx, m, a, b, r, margin, norm, one)
    else:
        wx, wy = wanted_2d(ctx, m, a, b, r, margin, one)
    ctx.check('type', str(xs.dtype) == 'float32' and
              str(ys.dtype) == 'float32')
    ctx.equal('x shifts', xs, wx)
    ctx.equal('y shifts', ys, wy)
    ctx.equal('reference untouched', ref, k0)
    ctx.equal('image untouched', mat, k1)


def moved(ctx, shape, d, dim=2, gpu=False, chunk=100, margin=1, ncore=1,
          norm=False):
    """An image displaced as a whole by d pixels, with any gain and offset,
    has the shift d at every pixel where the windows fit."""
    m = ctx.mod(CO)
    np = ctx.np
    g = ctx.real('g', 0.5, 3)
    o = ctx.real('o', 0, 4) if not norm else 0.0
    n = margin
    h, w = shape[-2:]
    big = texture(shape[:-2] + (8, 8))
    ref = big[..., n:h - n, n:w - n]
    mov = big[..., n + d[0]:h - n + d[0], n + d[1]:w - n + d[1]]
    up = (lambda v: [up(u) for u in v] if isinstance(v, list)
          else v * g + o)
    xs, ys = m.find_local_shifts(
        np.asarray(ref.tolist()), np.asarray(up(mov.tolist())), dim=dim,
        win_size=3, margin=margin, gpu=gpu, chunk_size=chunk, ncore=ncore,
        norm=norm)
    e = 1 + margin
    hh, ww = ref.shape[-2:]
    for i in range(e, hh - e):
        for j in range(e, ww - e):
            ctx.check('x', abs(xs[i, j] - d[1]) < 0.5 + 1e-6)
            ctx.check('y', abs(ys[i, j] - d[0]) < 0.5 + 1e-6)


def refused(ctx, gpu):
    m = ctx.mod(CO)
    a = ctx.array('a', (2, 6, 6))
    f = m.find_local_shifts
    kw = dict(win_size=3, margin=1, gpu=gpu, ncore=1)
    ctx.raises('shapes', ValueError, lambda: f(a[0], a[0][:5], **kw))
    ctx.raises('shapes', ValueError, lambda: f(a, a[:, :5], **kw))
    ctx.raises('shapes', ValueError, lambda: f(a, a[:, :5], dim=2, **kw))
    for n in (4, 3):
        ctx.raises('too narrow', ValueError,
                   lambda: f(a[0, :, :n], a[0, :, :n], **kw))
        ctx.raises('too low', ValueError,
                   lambda: f(a[0, :n], a[0, :n], **kw))
        ctx.raises('too narrow', ValueError,
                   lambda: f(a[:, :, :n], a[:, :, :n], dim=2, **kw))
        ctx.raises('too low', ValueError,
                   lambda: f(a[:, :n], a[:, :n], dim=2, **kw))
    g = m.find_global_shift_based_local_shifts
    kw = dict(gpu=gpu, ncore=1)
    b = a[0]
    ctx.raises('shapes', ValueError, lambda: g(b, b[:5], 3, 1, **kw))
    ctx.raises('dimensions', ValueError, lambda: g(a, a, 3, 1, **kw))
    ctx.raises('small', ValueError, lambda: g(b[:4], b[:4], 3, 1, **kw))
    for p in (7, [1, 2, 3], [[3], 3], [[3, 3], [3]], [2, 3], [3, 4],
              [[1, 9], [3, 3]]):
        ctx.raises('points', ValueError,
                   lambda: g(b, b, 3, 1, list_ij=p, **kw))


def middle(ctx, v, how):
    """Global value of a list of shifts."""
    s = srt(ctx, v)
    n = len(s)
    if how == 'mixed' and n > 1:
        mid = n // 2
        return mean(s[max(mid - 3, 0):min(mid + 3, n)])
    if how in ('median', 'mixed'):
        return s[n // 2] if n % 2 else (s[n // 2] + s[n // 2 - 1]) * 0.5
    return mean(s[2:-2] if n > 7 else s)


def overall(ctx, shape, pts, how, gpu=False, norm=False, ncore=1, sub=True,
            margin=1, every=False, offset=False):
    """One shift from those of the listed points inside the box."""
    m = ctx.mod(CO)
    if every:
        ref, mat = ctx.array('r', shape, 0, 1), ctx.array('m', shape, 0, 1)
    else:
        ref, mat = pictures(ctx, shape, True, offset)
    g = m.find_global_shift_based_local_shifts
    kw = {} if gpu else {'sub_pixel': sub}
    h, w = shape
    e = 1 + margin
    single = not isinstance(pts[0], (list, tuple))
    ij = [(pts[0], pts[1])] if single else [
        p for p in zip(*pts) if e < p[0] < h - e and e < p[1] < w - e]
    a, b = (m.normalize_image(ref), m.normalize_image(mat)) if norm \
        else (ref, mat)
    kw.update(list_ij=pts, gpu=gpu, norm=norm, ncore=ncore)
    if every:
        with Windows(ctx, m) as stub:
            x, y = g(ref, mat, 3, margin, global_value=how, **kw)
            xs, ys = g(ref, mat, 3, margin, return_list=True, **kw)
        if stub.calls == 0:
            return
        one = (lambda p, q: stub.value(p, q, margin, None, sub, 'diff', 2,
                                       3))
    else:
        x, y = g(ref, mat, 3, margin, global_value=how, **kw)
        xs, ys = g(ref, mat, 3, margin, return_list=True, **kw)
        one = (lambda p, q: m.find_shift_based_correlation_map(
            p, q, margin, sub_pixel=sub, dim=2))
    want = [one(a[i - e:i + e + 1, j - e:j + e + 1],
                b[i - 1:i + 2, j - 1:j + 2]) for i, j in ij]
    ctx.equal('list of x', xs, [v[0] for v in want])
    ctx.equal('list of y', ys, [v[1] for v in want])
    ctx.check('x', abs(x - middle(ctx, [v[0] for v in want], how)) < 1e-3)
    ctx.check('y', abs(y - middle(ctx, [v[1] for v in want], how)) < 1e-3)


def random_points(ctx, shape, n, gpu=False):
    """Whatever points are drawn, an image moved as a whole by one pixel has
    that shift."""
    m = ctx.mod(CO)
    np = ctx.np
    big = texture((8, 8))
    h, w = shape
    ref = np.asarray(big[1:h + 1, 1:w + 1].tolist())
    mat = np.asarray(big[0:h, 2:w + 2].tolist())
    x, y = m.find_global_shift_based_local_shifts(
        ref, mat, 3, 1, num_point=n, gpu=gpu, ncore=1)
    ctx.check('x', abs(x - 1) < 0.5 + 1e-6)
    ctx.check('y', abs(y + 1) < 0.5 + 1e-6)


# all pixels
for chunk in (100, 1, 2, 3, None):
    P.case(local, shape=(2, 7, 6), dim=1, chunk=chunk, whole=True)
    P.case(local, shape=(2, 7, 6), dim=2, chunk=chunk, whole=True)
P.case(local, shape=(7, 6), whole=True)
P.case(local, shape=(5, 8), whole=True, win=2)
P.case(local, shape=(8, 7), whole=True, margin=2)
P.case(local, shape=(9, 8), whole=True, win=5, method='poly_fit', size=5)
P.case(local, shape=(3, 8, 8), dim=1, whole=True, margin=2, chunk=3,
       method='poly_fit')
P.case(local, shape=(3, 8, 9), dim=2, whole=True, win=4, size=5, chunk=3)
# windows searched for real
for gpu in (False, True):
    for chunk in (100, 1, 2, None):
        P.case(local, shape=(7, 6), gpu=gpu, chunk=chunk)
        P.case(local, shape=(2, 7, 6), dim=2, gpu=gpu, chunk=chunk)
        P.case(local, shape=(2, 6, 6), dim=1, gpu=gpu, chunk=chunk)
    P.case(local, shape=(6, 7), gpu=gpu, norm=True, chunk=None)
    P.case(local, shape=(8, 9), gpu=gpu, norm=True, norm_global=True,
           chunk=1)
    P.case(local, shape=(7, 8), gpu=gpu, margin=2, ncore=2)
    P.case(local, shape=(2, 6, 6), dim=2, gpu=gpu, norm=True,
           norm_global=True, chunk=1)
    P.case(local, shape=(2, 5, 6), dim=1, gpu=gpu, norm=True)
    P.case(local, shape=(2, 5, 6), dim=1, gpu=gpu, norm_global=True)
    P.case(local, shape=(3, 6, 7), dim=2, gpu=gpu, win=2, chunk=2)
    for d in ((0, 0), (1, -1), (0, 1), (-1, 0)):
        P.case(moved, shape=(8, 8), d=d, gpu=gpu)
    P.case(moved, shape=(8, 8), d=(1, 0), gpu=gpu, chunk=1, norm=True)
    P.case(moved, shape=(2, 8, 8), d=(1, 1), gpu=gpu, chunk=2)
    P.case(refused, gpu=gpu)
    for how in ('mixed', 'median', 'mean'):
        P.case(overall, shape=(8, 8), pts=[[3, 4, 3], [4, 3, 3]], how=how,
               gpu=gpu)
    P.case(overall, shape=(8, 8), pts=[[4, 1], [4, 4]], how='mixed', gpu=gpu)
    P.case(overall, shape=(8, 8), pts=[3, 4], how='mixed', gpu=gpu,
           norm=True)
    P.case(overall, shape=(8, 8), pts=([3, 3, 4, 4, 5, 5, 5, 3, 4],
                                       [3, 4, 3, 4, 3, 4, 5, 5, 5]),
           how='mean', gpu=gpu)
    P.case(random_points, shape=(6, 6), n=1, gpu=gpu)
    P.case(random_points, shape=(6, 6), n=3, gpu=gpu)
for how in ('mixed', 'median', 'mean'):
    P.case(overall, shape=(7, 8), pts=[[3, 3, 2], [4, 3, 4]], how=how,
           every=True)
P.case(overall, shape=(7, 7), pts=[3, 3], how='mixed', every=True, sub=False)
P.case(overall, shape=(8, 8), pts=[[3, 4], [4, 3]], how='mean', sub=False,
       ncore=2)
P.case(local, shape=(7, 6), ncore=2)
P.case(local, shape=(2, 6, 6), dim=2, ncore=2, chunk=2)
P.case(local, shape=(2, 5, 6), dim=1, ncore=None)
P.case(local, shape=(6, 6), method='poly_fit', size=3)
P.case(local, shape=(2, 5, 6), dim=1, method='poly_fit')
for chunk in (100, 1):
    P.case(local, shape=(2, 7, 6), gpu='hybrid', chunk=chunk)
P.case(local, shape=(2, 6, 6), gpu='hybrid', norm=True, norm_global=True,
       method='poly_fit', chunk=2, ncore=2)


def rows_umpa(ctx, ref, mat, win, i, j, margin, dark):
    """Distance map of a pixel: the weighted squares of what is left of the
    image after the best gain (and background) at every displacement."""
    r, depth = len(win) // 2, len(ref)
    size = 2 * margin + 1
    im = sum(sum(sum(v) for v in p) for p in ref) / (
        len(ref[0]) * len(ref[0][0]) * depth)
    D = [[0.0] * size for _ in range(size)]
    A = [[0.0] * size for _ in range(size)]
    V = [[0.0] * size for _ in range(size)]
    for u in range(size):
        for v in range(size):
            t = [0.0] * 6
            for k in range(depth):
                for p in range(-r, r + 1):
                    for q in range(-r, r + 1):
                        w = win[p + r][q + r]
                        a = mat[k][i + p][j + q]
                        b = ref[k][i + p + u - margin][j + q + v - margin]
                        t[0] = t[0] + w * a * a
                        t[2] = t[2] + w * b * b
                        t[3] = t[3] + w * im * a
                        t[4] = t[4] + w * a * b
                        t[5] = t[5] + w * im * b
            t[1] = im * im * depth
            if dark:
                det = t[1] * t[2] - t[5] * t[5]
                K = (t[1] * t[4] - t[3] * t[5]) / det
                B = (t[2] * t[3] - t[4] * t[5]) / det
                A[u][v], V[u][v] = B + K, K / (B + K)
            else:
                K, B = t[4] / t[2], 0.0
            D[u][v] = t[0] + B * B * t[1] + K * K * t[2] - 2 * B * t[3] \
                - 2 * K * t[4] + 2 * B * K * t[5]
    return D, A, V


def umpa(ctx, shape, dark=False, gpu=False, chunk=100, win=3, margin=1,
         method='diff', ncore=1, name_='hamming', d=None):
    m = ctx.mod(CO)
    np = ctx.np
    g = ctx.real('g', 0.5, 3)
    src = GRAIN[:shape[0]]
    ref = src[:, 1:1 + shape[1], 1:1 + shape[2]]
    if d is None:
        mov = src[:, 3:3 + shape[1], 4:4 + shape[2]]
    else:
        mov = src[:, 1 + d[0]:1 + d[0] + shape[1],
                  1 + d[1]:1 + d[1] + shape[2]]
    up = (lambda v: [up(u) for u in v] if isinstance(v, list) else v * g)
    ref, mat = ref.tolist(), up(mov.tolist())
    one = onp.hamming(win) if name_ == 'hamming' else onp.ones(win)
    w = onp.multiply.outer(one, one)
    w = (w / w.sum()).tolist()
    out = m.find_local_shifts_umpa(
        np.asarray(ref), np.asarray(mat), win_size=win, margin=margin,
        method=method, gpu=gpu, ncore=ncore, chunk_size=chunk,
        filter_name=None if name_ == 'none' else name_, dark_signal=dark)
    ctx.check('results', len(out) == (4 if dark else 2))
    h, wd = shape[1:]
    e = win // 2 + margin
    want = [[[0.0 if k < 2 else None] * wd for _ in range(h)]
            for k in range(4)]
    for i in range(e, h - e):
        for j in range(e, wd - e):
            D, A, V = rows_umpa(ctx, ref, mat, w, i, j, margin, dark)
            x, y = m.locate_peak(np.asarray(D), method=method,
                                 max_peak=False)
            want[0][i][j], want[1][i][j] = x - margin, y - margin
            if dark:
                p, q = int(ctx_round(y)), int(ctx_round(x))
                want[2][i][j], want[3][i][j] = abs(A[p][q]), abs(V[p][q])
            if d is not None:
                ctx.check('moved x', abs(out[0][i, j] - d[1]) < 0.5 + 1e-6)
                ctx.check('moved y', abs(out[1][i, j] - d[0]) < 0.5 + 1e-6)
    for k in range(4 if dark else 2):
        if k > 1:       # the border repeats the nearest value
            for i in range(h):
                for j in range(wd):
                    want[k][i][j] = want[k][min(max(i, e), h - e - 1)][
                        min(max(j, e), wd - e - 1)]
        ctx.equal(('x', 'y', 'transmission', 'dark')[k], out[k], want[k])


def ctx_round(v):
    return round(float(v)) if not hasattr(v, '__round__') else round(v)


for gpu in (False, True):
    for dark in (False, True):
        for chunk in (100, 1, 2, None):
            P.case(umpa, shape=(2, 7, 6), dark=dark, gpu=gpu, chunk=chunk)
        for d in ((0, 0), (1, -1), (0, 1)):
            P.case(umpa, shape=(3, 7, 6), dark=dark, gpu=gpu, d=d)
        P.case(umpa, shape=(2, 6, 7), dark=dark, gpu=gpu, name_='none')
    P.case(umpa, shape=(2, 9, 8), gpu=gpu, margin=2, chunk=3)
    P.case(umpa, shape=(2, 8, 9), gpu=gpu, win=5, chunk=3)
P.case(umpa, shape=(2, 7, 6), ncore=None, method='poly_fit')
P.case(umpa, shape=(2, 7, 6), ncore=2, dark=True, method='poly_fit')
