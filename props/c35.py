"""Speckle tracking by the unified modulated pattern analysis (UMPA)."""
import numpy as onp
import scipy.signal as sig
from engine.registry import Prop

P = Prop('C35', ['util.correlation.find_local_shifts_umpa',
                 'util.correlation.__calc_shift_umpa',
                 'util.correlation.__calc_shift_umpa_gpu_kernel'],
         'stacks of 1..3 images of 5..10 pixels, windows of 3 and 5, margins '
         '1 and 2, any gain of the sample, listed textures, movements and '
         'visibilities; chunks of 1..100 rows; on CPU and GPU', [
             'float32 rounding', 'the position of a peak is the one decided '
             'by C23'],
         'sub-pixel accuracy')
CO = 'algotom.util.correlation'
R = onp.random.RandomState(3).randint(1, 30, (3, 24, 24)) * 1.0


def scene(n, h, w, dy, dx, vis, blur=False):
    """Speckles, and the sample: speckles moved and of less contrast."""
    ref = R[:n, 6:6 + h, 6:6 + w]
    mov = R[:n, 6 + dy:6 + dy + h, 6 + dx:6 + dx + w]
    if blur:                     # something no model explains exactly
        mov = 0.7 * mov + 0.3 * R[:n, 2:2 + h, 3:3 + w]
    im = ref.mean()
    return ref, vis * mov + (1 - vis) * im


def hull(win, name):
    w = sig.windows.get_window(name, win, fftbins=False) if name else \
        onp.ones(win)
    w = onp.outer(w, w)
    return w / w.sum()


def fitted(ref, mat, i, j, win, margin, name, dark):
    """Residual of the weighted fit of sample by speckles (and a constant)
    for every movement; transmission and visibility of every fit."""
    r = win // 2
    w = onp.sqrt(hull(win, name))
    im = ref.mean()
    s = 2 * margin + 1
    D, A, V = onp.zeros((s, s)), onp.zeros((s, s)), onp.zeros((s, s))
    b = onp.ravel(mat[:, i - r:i + r + 1, j - r:j + r + 1] * w)
    for u in range(s):
        for v in range(s):
            p, q = i + u - margin, j + v - margin
            x = onp.ravel(ref[:, p - r:p + r + 1, q - r:q + r + 1] * w)
            m = [x]
            if dark:
                m.append(onp.ravel(onp.ones_like(ref[:, :win, :win]) * im *
                                   w))
            m = onp.asarray(m).T
            k = onp.linalg.lstsq(m, b, rcond=None)[0]
            D[u, v] = ((m @ k - b) ** 2).sum()
            A[u, v] = k.sum()
            V[u, v] = k[0] / k.sum()
    return D, onp.abs(A), onp.abs(V)


def track(ctx, shape, move, win=3, margin=1, dark=False, vis=1.0, gpu=False,
          blur=False, chunk=100, name='hamming', method='diff', size=3,
          block=(16, 16), ncore=1):
    """Movement, transmission and visibility of the best fit in every
    window, whatever the gain of the sample; nothing near the border."""
    m = ctx.mod(CO)
    np = ctx.np
    n, h, w = shape
    ctx.single_bounds()
    g = ctx.real('g', 0.5, 2)
    ref, sam = scene(n, h, w, *move, vis, blur)
    a = np.asarray(ref.tolist())
    b = np.asarray([[[v * g for v in r] for r in q] for q in sam.tolist()])
    keep = np.copy(b)
    out = m.find_local_shifts_umpa(
        a, b, win_size=win, margin=margin, method=method, size=size, gpu=gpu,
        block=block, ncore=ncore, chunk_size=chunk, filter_name=name,
        dark_signal=dark)
    ctx.check('results', len(out) == (4 if dark else 2))
    win = 2 * (win // 2) + 1
    e = margin + win // 2
    X, Y = onp.zeros((h, w)), onp.zeros((h, w))
    T, V = onp.zeros((h, w)), onp.zeros((h, w))
    for i in range(e, h - e):
        for j in range(e, w - e):
            D, A, K = fitted(ref, sam, i, j, win, margin, name, dark)
            x, y = m.locate_peak(np.asarray(D.tolist()), sub_pixel=True,
                                 method=method, dim=2, size=size,
                                 max_peak=False)
            x, y = float(x), float(y)
            X[i, j], Y[i, j] = x - margin, y - margin
            T[i, j] = A[int(round(y)), int(round(x))]
            V[i, j] = K[int(round(y)), int(round(x))]
    ctx.equal('x', out[0], X.tolist(), tol=5e-3)
    ctx.equal('y', out[1], Y.tolist(), tol=5e-3)
    if dark:
        T = onp.pad(T[e:h - e, e:w - e], e, mode='edge')
        V = onp.pad(V[e:h - e, e:w - e], e, mode='edge')
        ctx.equal('transmission', out[2], [[v * g for v in r]
                                           for r in T.tolist()], tol=5e-3)
        ctx.equal('dark signal', out[3], V.tolist(), tol=5e-3)
        if not blur:
            ctx.equal('transmission', out[2], [[g] * w] * h, tol=5e-3)
            ctx.equal('dark signal', out[3], [[vis] * w] * h, tol=5e-3)
    if not blur:
        k = ctx.nested(out[0])[e][e]
        ctx.check('movement', abs(k - move[1]) < 1)
        k = ctx.nested(out[1])[e][e]
        ctx.check('movement', abs(k - move[0]) < 1)
    ctx.equal('input untouched', b, keep)


def refused(ctx, gpu):
    m = ctx.mod(CO)
    a, b = ctx.array('a', (2, 6, 6)), ctx.array('b', (2, 6, 5))
    c = ctx.array('c', (6, 6))
    f = m.find_local_shifts_umpa
    k = dict(gpu=gpu, ncore=1)
    ctx.raises('sizes', ValueError, lambda: f(a, b, win_size=3, margin=1,
                                              **k))
    ctx.raises('single images', ValueError,
               lambda: f(c, c, win_size=3, margin=1, **k))
    ctx.raises('too small', ValueError, lambda: f(a, a, win_size=5,
                                                  margin=1, **k))
    ctx.raises('too small', ValueError, lambda: f(a, a, win_size=3,
                                                  margin=2, **k))


for gpu in (False, True):
    for dark in (False, True):
        P.case(track, shape=(2, 6, 7), move=(0, 1), gpu=gpu, dark=dark)
        P.case(track, shape=(2, 7, 6), move=(-1, 0), gpu=gpu, dark=dark,
               chunk=1, name=None, vis=0.6 if dark else 1.0)
        P.case(track, shape=(3, 7, 6), move=(1, 1), gpu=gpu, dark=dark,
               blur=True, chunk=2)
    P.case(track, shape=(2, 8, 9), move=(1, -1), gpu=gpu, dark=True,
           margin=2, vis=0.75, chunk=3, block=(2, 2))
    P.case(track, shape=(1, 9, 8), move=(-1, 1), gpu=gpu, dark=False,
           margin=1, win=5, chunk=None)
    P.case(track, shape=(2, 9, 8), move=(1, 2), gpu=gpu, dark=True, win=4,
           margin=1, vis=0.5, blur=True, block=(3, 2))
    P.case(refused, gpu=gpu)
P.case(track, shape=(2, 7, 6), move=(0, 1), ncore=2, dark=True, blur=True)
P.case(track, shape=(2, 8, 8), move=(0, 1), method='poly_fit', margin=2)
