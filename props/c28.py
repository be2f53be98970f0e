"""Speckle-based phase retrieval: alignment, signals, and the whole chain."""
import inspect
import numpy as onp
import scipy.ndimage as ndi
from engine.registry import Prop
from props.common import linmap
from props.c24 import GRAIN, flat

P = Prop('C28', ['prep.phase.find_shift_between_image_stacks',
                 'prep.phase.find_shift_between_sample_images',
                 'prep.phase.align_image_stacks',
                 'prep.phase.get_transmission_dark_field_signal',
                 'prep.phase._get_transmission_dark_field_signal',
                 'prep.phase._calculate_transmission_dark_field_values',
                 'prep.phase.retrieve_phase_based_speckle_tracking'],
         'stacks of 1..3 images of 5..14 pixels (44 rows where rows are cut '
         'into parts); symbolic gains, pixels and shifts', [
             'float32 rounding', 'the search of shifts is decided by C23 and '
             'C24, the integration by C27'],
         'larger images; sub-pixel accuracy of the alignment')
PH, CO = 'algotom.prep.phase', 'algotom.util.correlation'
R = onp.random.RandomState(11)
S = R.randint(1, 30, (40, 40)) * 1.0
T = 1.0 + R.randint(1, 9, (40, 40)) / 10.0


def part(a, h, w, dy=0, dx=0):
    """h x w pixels of a; what is at (y, x) of a is moved to (y-dy, x-dx)."""
    return a[10 + dy:10 + dy + h, 10 + dx:10 + dx + w]


def scaled(ctx, mats, lo=0.5, hi=3, first=0):
    """Any gain for every image of a fixed stack."""
    n = len(mats)
    g = [1.5] * first + ctx.list(ctx.array('g', (n - first,), lo, hi))
    return ctx.np.asarray([[[float(v) * c for v in r] for r in m]
                           for m, c in zip(mats, g)]), g


def drift(ctx, moves, points, two_d=False, h=14, **k):
    """The speckles of a sample image moved by any whole number of pixels
    against their reference image: that movement is found, whatever the
    gain of the image."""
    m = ctx.mod(PH)
    np = ctx.np
    ref = onp.asarray([part(S, h, h, i, 2 * i) for i in range(len(moves))])
    sam, g = scaled(ctx, [part(S, h, h, i + dy, 2 * i + dx)
                          for i, (dx, dy) in enumerate(moves)])
    ref = np.asarray(ref.tolist())
    if two_d:
        ref, sam = ref[0], sam[0]
    k.setdefault('sub_pixel', False)
    out = m.find_shift_between_image_stacks(ref, sam, 5, 3, points, ncore=1,
                                            **k)
    ctx.equal('shifts', out, [list(map(float, v)) for v in moves])


def sample(ctx, drifts, moves, two_d=False, h=16, margin=2, first=0):
    """Speckles that moved differently in every image (known shifts) do not
    change what is found of the movement of the sample itself."""
    m = ctx.mod(PH)
    np = ctx.np
    n = len(moves)
    ref = onp.asarray([part(S, h, h, i, i) for i in range(n)])
    sam, g = scaled(ctx, [part(S, h, h, i + b, i + a) * part(T, h, h, d, c)
                          for i, ((a, b), (c, d)) in
                          enumerate(zip(drifts, moves))], first=first)
    ref = np.asarray(ref.tolist())
    if two_d:
        ref, sam = ref[0], sam[0]
    mid = h // 2 - 1 - max(abs(c) for v in drifts for c in v)
    out = m.find_shift_between_sample_images(
        ref, sam, np.asarray([[float(c) for c in v] for v in drifts]),
        5, margin, [mid, mid], sub_pixel=False, ncore=1)
    ctx.equal('shifts', out, [[float(c - moves[0][0]), float(d - moves[0][1])]
                              for c, d in moves[:1 if two_d else n]])


def align(ctx, drifts, moves=None, h=4, w=5, mode='reflect', two_d=False):
    """Every image is moved on its own by the listed amount (x, y): samples
    onto the first one, references the same and by the drift, back."""
    m = ctx.mod(PH)
    np = ctx.np
    n = len(drifts)
    ref, sam = ctx.array('r', (n, h, w)), ctx.array('s', (n, h, w))
    if two_d:
        ref, sam = ref[0], sam[0]
    k0, k1 = np.copy(ref), np.copy(sam)
    k = {} if mode == 'reflect' else {'mode': mode}
    if moves is not None:
        k['sam_shifts'] = np.asarray(moves)
    a, b = m.align_image_stacks(ref, sam, np.asarray(drifts), **k)
    rr, ss = ctx.nested(ref), ctx.nested(sam)
    if two_d:
        rr, ss = [rr], [ss]
    for i, (x, y) in enumerate(drifts):
        f = (lambda v: ndi.shift(v, (-y, -x), mode=mode))
        one = linmap(f, rr[i])
        two = ss[i]
        if moves is not None:
            c, d = moves[i]
            g = (lambda v: ndi.shift(v, (d, c), mode=mode))
            one = linmap(lambda v: g(f(v)), rr[i])
            two = linmap(g, ss[i])
        ctx.equal('references', a[i], one)
        ctx.equal('samples', b[i], two)
    ctx.equal('input untouched', ref, k0)
    ctx.equal('input untouched', sam, k1)


def together(ctx, drifts, moves, h=16):
    """Found shifts, then alignment: the ratio of sample and reference is
    the same sample for every image."""
    m = ctx.mod(PH)
    np = ctx.np
    n = len(moves)
    ref = onp.asarray([part(S, h, h, i, i) for i in range(n)])
    sam, g = scaled(ctx, [part(S, h, h, i + b, i + a) * part(T, h, h, d, c)
                          for i, ((a, b), (c, d)) in
                          enumerate(zip(drifts, moves))])
    ref = np.asarray(ref.tolist())
    mid = h // 2 - 1
    k = dict(sub_pixel=False, ncore=1)
    top = max(abs(c) for v in drifts + moves for c in v)
    found = m.find_shift_between_image_stacks(ref, ref[:, ::1], 5, 2,
                                              [mid, mid], **k)
    ctx.equal('no drift', found, [[0.0, 0.0]] * n)
    sr = np.asarray([[float(c) for c in v] for v in drifts])
    sh = [[float(c - moves[0][0]), float(d - moves[0][1])] for c, d in moves]
    ctx.equal('shifts', m.find_shift_between_sample_images(
        ref, sam, sr, 5, 2, [mid - top, mid - top], **k), sh)
    a, b = m.align_image_stacks(ref, sam, sr, sam_shifts=np.asarray(sh))
    e = 2 * top + 1
    want = part(T, h, h, moves[0][1], moves[0][0])
    for i in range(n):
        for p in range(e, h - e):
            for q in range(e, h - e):
                ctx.equal('sample', [b[i, p, q]],
                          [a[i, p, q] * g[i] * float(want[p, q])])


def whole(v, ctx):
    """The whole number nearest to a value (ties are kept away)."""
    for k in range(-3, 4):
        if v < k + 0.5:
            ctx.assume(v < k + 0.499)
            ctx.assume(v > k - 0.499)
            return k
    raise AssertionError


def signal(ctx, shape, win=3, margin=None, bound=1.4, x=None, y=None, at=(),
           ncore=1, hot=None):
    """Ratio of mean values, and of relative deviations, of the window of
    the sample around a pixel to the window of the reference it came from;
    the same at the border as at the nearest pixel inside."""
    m = ctx.mod(PH)
    np = ctx.np
    h, w = shape[-2:]
    n = shape[0] if len(shape) == 3 else 1
    x = onp.zeros((h, w)) if x is None else onp.asarray(x) * 1.0
    y = onp.zeros((h, w)) if y is None else onp.asarray(y) * 1.0
    x, y = x.tolist(), y.tolist()
    for k, p in enumerate(at):
        x[p[0]][p[1]] = ctx.real('x%d' % k, -bound, bound)
        y[p[0]][p[1]] = ctx.real('y%d' % k, -bound, bound)
    if hot is None:
        ref, sam = ctx.array('r', shape, 1, 9), ctx.array('s', shape, 1, 9)
    else:
        base = [onp.resize(v, shape).tolist() for v in (S[::-1], S)]
        for c, (b, nm) in enumerate(zip(base, 'rs')):
            for k, p in enumerate(hot):
                o = b
                for q in p[:-1]:
                    o = o[q]
                o[p[-1]] = ctx.real('%s%d' % (nm, k), 1, 9)
        ref, sam = [np.asarray(b) for b in base]
    k = {} if margin is None else {'margin': margin}
    tr, dk = m.get_transmission_dark_field_signal(
        ref, sam, np.asarray(x), np.asarray(y), win, ncore=ncore, **k)
    r = win // 2
    rr, ss = ctx.nested(ref), ctx.nested(sam)
    if len(shape) == 2:
        rr, ss = [rr], [ss]
    if margin is None:
        near = {}
        margin = 0
        for i in range(h):
            for j in range(w):
                for t in (x, y):
                    margin = max(margin, abs(whole(t[i][j], ctx)))
    e = r + margin
    ctx.check('size', tuple(tr.shape) == (h, w) and
              tuple(dk.shape) == (h, w))
    tr, dk = ctx.nested(tr), ctx.nested(dk)
    memo = {}
    for i in range(h):
        for j in range(w):
            p, q = min(max(i, e), h - e - 1), min(max(j, e), w - e - 1)
            if (p, q) not in memo:
                dy, dx = whole(y[p][q], ctx), whole(x[p][q], ctx)
                one = two = 0.0
                for c in range(n):
                    a = [rr[c][p + dy + u][q + dx + v]
                         for u in range(-r, r + 1) for v in range(-r, r + 1)]
                    b = [ss[c][p + u][q + v]
                         for u in range(-r, r + 1) for v in range(-r, r + 1)]
                    ma, mb = sum(a) / len(a), sum(b) / len(b)
                    one = one + mb / ma
                    if len(a) == 1:
                        two = two + 1.0
                        continue
                    da, db = [np.std(np.asarray(v)) for v in (a, b)]
                    two = two + (ma / mb) * (db / da)
                memo[p, q] = 1
                ctx.equal('transmission', [tr[p][q]], [one / n])
                ctx.equal('dark', [dk[p][q]], [two / n])
            else:
                ctx.equal('border', [tr[i][j], dk[i][j]],
                          [tr[p][q], dk[p][q]])


def blank(ctx):
    """Nothing is divided by zero: 1 where there is no signal at all."""
    m = ctx.mod(PH)
    np = ctx.np
    f = m.get_transmission_dark_field_signal
    z, one = np.zeros((5, 5)), [[1.0] * 5 for _ in range(5)]
    s = ctx.array('s', (5, 5), 1, 9)
    c = ctx.real('c', 1, 9)
    for a, b in ((z, s), (s, z), (z, z)):
        tr, dk = f(a, b, z, z, 3, margin=1)
        ctx.equal('transmission', tr, one)
        ctx.equal('dark', dk, one)
    flat_ = np.asarray([[c] * 5] * 5)
    tr, dk = f(flat_, s, z, z, 3, margin=1)
    mean = sum(ctx.nested(s)[i][j] for i in (1, 2, 3) for j in (1, 2, 3)) / 9
    ctx.equal('transmission', tr, [[mean / c] * 5] * 5)
    ctx.equal('dark', dk, one)


def same(ctx, h, w, dy, dx, n=2, margin=2, win=3, ncore=1):
    """A sample of one gain that only moves the speckles: the transmission
    is the gain, and nothing is blurred."""
    m = ctx.mod(PH)
    np = ctx.np
    ref = onp.asarray([part(S, h, w, i, 3 * i) for i in range(n)])
    g = ctx.real('g', 0.2, 5)
    sam = [[[float(v) * g for v in r] for r in part(S, h, w, i + dy,
                                                    3 * i + dx)]
           for i in range(n)]
    tr, dk = m.get_transmission_dark_field_signal(
        np.asarray(ref.tolist()), np.asarray(sam),
        np.full((h, w), float(dx)), np.full((h, w), float(dy)), win,
        margin=margin, ncore=ncore)
    ctx.equal('transmission', tr, [[g] * w for _ in range(h)])
    ctx.equal('dark', dk, [[1.0] * w for _ in range(h)])


def chain(ctx, h=10, w=11, find='correl', surf='SCS', dark=False, back=False,
          pad=1, mode='linear_ramp', margin=1, win=3, given=False, n=2, **k):
    """Shifts, their border replaced by the mirrored inside, the surface
    they are the gradients of, and the signals of the same shifts."""
    m, c = ctx.mod(PH), ctx.mod(CO)
    np = ctx.np
    ref = np.asarray(onp.asarray([part(S, h, w, i, 2 * i)
                                  for i in range(n)]).tolist())
    sam = np.asarray(onp.asarray([part(S, h, w, i + 1, 2 * i)
                                  for i in range(n)]).tolist())
    xs, ys = ctx.array('x', (h, w), -0.4, 0.4), \
        ctx.array('y', (h, w), -0.4, 0.4)
    tt, dd = ctx.array('t', (h, w)), ctx.array('d', (h, w))
    seen = []
    names = 'find_local_shifts', 'find_local_shifts_umpa'
    real = [getattr(c, v) for v in names]

    def stand(i):
        sig = inspect.signature(real[i])

        def f(*a, **b):
            v = sig.bind(*a, **b)
            v.apply_defaults()
            seen.append((names[i], dict(v.arguments)))
            if i and v.arguments['dark_signal']:
                return np.copy(xs), np.copy(ys), np.copy(tt), np.copy(dd)
            return np.copy(xs), np.copy(ys)
        return f
    if given:
        s = (h, w) if surf == 'SCS' else (2 * h, 2 * w)
        s = (h + 2 * pad, w + 2 * pad) if surf == 'SCS' else s
        k['window'] = [np.asarray((GRAIN[i].repeat(4, 0).repeat(4, 1)
                                   [:s[0], :s[1]] / 8).tolist())
                       for i in range(3)]
    try:
        for i in (0, 1):
            setattr(c, names[i], stand(i))
        out = m.retrieve_phase_based_speckle_tracking(
            ref, sam, find_shift=find, dark_signal=dark, win_size=win,
            margin=margin, surf_method=surf, pad=pad, pad_mode=mode,
            return_shift=back, correct_negative=False, **k)
    finally:
        for i in (0, 1):
            setattr(c, names[i], real[i])
    margin, win = max(margin, 1), max(win, 1)
    ctx.check('one search', len(seen) == 1)
    nm, a = seen[0]
    ctx.check('search', nm == names[1 if find == 'umpa' else 0])
    ctx.equal('reference', a['ref_mat'], ref)
    ctx.equal('sample', a['mat'], sam)
    want = dict(win_size=win, margin=margin, dim=1, method='diff', size=3,
                gpu=False, norm=True, norm_global=False, chunk_size=100,
                filter_name='hamming', dark_signal=dark)
    want.update({q: v for q, v in k.items() if q != 'window'})
    want['size'] = max(want['size'], 3)
    for q, v in want.items():
        if q in a:
            ctx.check('search', a[q] == v)
    e = margin + max(2, win // 2)    # no shifts are found nearer
    p = onp.pad(onp.arange(h * w).reshape(h, w)[e:-e, e:-e], e,
                mode='reflect')
    x2 = [[flat(ctx.nested(xs))[q] for q in r] for r in p]
    y2 = [[flat(ctx.nested(ys))[q] for q in r] for r in p]
    f = (m.reconstruct_surface_from_gradient_SCS_method if surf == 'SCS'
         else m.reconstruct_surface_from_gradient_FC_method)
    q = dict(correct_negative=False, window=k.get('window'))
    if surf == 'SCS':
        q.update(pad=pad, pad_mode=mode)
    ph = f(np.asarray(x2), np.asarray(y2), **q)
    got = list(out) if isinstance(out, (tuple, list)) else [out]
    ctx.check('number of images', len(got) == 1 + 2 * bool(dark) +
              2 * bool(back))
    if back:
        ctx.equal('x-shifts', got[0], x2)
        ctx.equal('y-shifts', got[1], y2)
        got = got[2:]
    ctx.equal('phase', got[0], ph)
    if dark:
        if find == 'umpa':
            one, two = tt, dd
        else:
            one, two = m.get_transmission_dark_field_signal(
                ref, sam, xs, ys, win, margin, ncore=1)
        ctx.equal('transmission', got[1], one)
        ctx.equal('dark', got[2], two)


def refused(ctx):
    m = ctx.mod(PH)
    np = ctx.np
    a, b = ctx.array('a', (2, 12, 12)), ctx.array('b', (2, 12, 13))
    z2, z3 = np.zeros((2, 2)), np.zeros((3, 2))
    f, g, al, tr = (m.find_shift_between_image_stacks,
                    m.find_shift_between_sample_images, m.align_image_stacks,
                    m.get_transmission_dark_field_signal)
    ctx.raises('size', ValueError, lambda: f(a, b, 3, 2, [5, 5]))
    ctx.raises('size', ValueError, lambda: f(a, a[:1], 3, 2, [5, 5]))
    ctx.raises('size', ValueError, lambda: g(a, b, z2, 3, 2, [5, 5]))
    ctx.raises('size', ValueError, lambda: al(a, b, z2))
    ctx.raises('number', ValueError, lambda: al(a, a, z3))
    ctx.raises('number', ValueError, lambda: al(a[0], a[0], z2))
    ctx.raises('number', ValueError, lambda: al(a, a, z2, sam_shifts=z3))
    z = np.zeros((12, 12))
    ctx.raises('dimensions', ValueError, lambda: tr(a[0, 0], a[0, 0], z, z,
                                                    3))
    ctx.raises('too small', ValueError, lambda: tr(a, a, z, z, 3, margin=5))
    ctx.raises('too small', ValueError, lambda: tr(a, a, z, z, 13))


PTS = [[5, 6, 7], [6, 7, 7]]
P.case(drift, moves=[(1, -2), (0, 3), (-3, 0)], points=PTS)
P.case(drift, moves=[(2, 1)], points=PTS, two_d=True, global_value='mean')
P.case(drift, moves=[(-1, 1), (1, 1)], points=[7, 6], global_value='median')
P.case(drift, moves=[(-1, 1), (2, 0)], points=PTS, norm=True)
P.case(drift, moves=[(-1, 1)], points=PTS, gpu=True, global_value='median',
       sub_pixel=True, tier='thorough')
P.case(sample, drifts=[(0, 0), (0, 0)], moves=[(0, 0), (1, -1)])
P.case(sample, drifts=[(1, 1), (1, 1)], moves=[(0, 0), (1, 2)])
P.case(sample, drifts=[(0, 1), (1, -1)], moves=[(0, 0), (0, 0)], margin=1)
P.case(sample, drifts=[(0, 1), (-1, 0), (1, 1)],
       moves=[(0, 1), (-1, 1), (1, 0)], margin=1, first=2)
P.case(sample, drifts=[(0, 1), (-1, 0), (1, 1)],
       moves=[(0, 1), (-1, 1), (1, 0)], margin=1, tier='thorough')
P.case(sample, drifts=[(1, 0)], moves=[(0, 1)], two_d=True)
P.case(align, drifts=[(0.5, -1.0), (1.25, 2.0)])
P.case(align, drifts=[(0.5, -1.0), (1.25, 2.0)],
       moves=[(0.0, 0.0), (-1.5, 0.75)])
P.case(align, drifts=[(1.0, 0.3)], moves=[(2.0, 0.6)], mode='constant')
P.case(align, drifts=[(1.0, 0.3), (0.0, 0.0), (-1.0, 2.0)], mode='nearest')
P.case(align, drifts=[(1.0, 0.3)], two_d=True)
P.case(align, drifts=[(1.0, 0.3)], moves=[(0.4, 0.3)], two_d=True)
P.case(together, drifts=[(0, 1), (1, -1)], moves=[(0, 0), (1, 0)])
P.case(together, drifts=[(1, 0), (0, 0)], moves=[(0, 1), (0, 0)])
P.case(signal, shape=(5, 5), margin=1, at=[(2, 2)], hot=[(1, 2)])
P.case(signal, shape=(5, 5), at=[(2, 2)], hot=[])
P.case(signal, shape=(7, 7), at=[(3, 3)], bound=2.3, hot=[], budget=60)
P.case(signal, shape=(5, 7), margin=1, at=[(2, 2), (2, 4)], hot=[])
P.case(signal, shape=(3, 4), margin=0, hot=[(0, 0), (2, 2), (1, 3)])
P.case(blank)
P.case(signal, shape=(6, 7), margin=1, hot=[(2, 3), (4, 4)],
       x=onp.arange(42).reshape(6, 7) % 3 - 1.2,
       y=onp.arange(42).reshape(6, 7) % 4 / 2 - 0.7)
P.case(signal, shape=(2, 6, 7), margin=1, win=3, hot=[(0, 2, 3), (1, 4, 4)],
       x=onp.arange(42).reshape(6, 7) % 3 - 1.2,
       y=onp.arange(42).reshape(6, 7) % 5 / 2 - 1.2)
P.case(signal, shape=(2, 3, 4), win=2, margin=0, ncore=None, hot=[(1, 1, 1)])
P.case(signal, shape=(1, 4, 4), win=1, margin=1)
P.case(signal, shape=(3, 3, 3), win=1, margin=1)
for nc in (2, 3):
    P.case(signal, shape=(2, 64, 5), margin=1, ncore=nc,
           hot=[(0, 22, 2), (0, 33, 1), (1, 42, 3), (0, 34, 2)],
           x=onp.arange(320).reshape(64, 5) % 3 - 1.2,
           y=onp.arange(320).reshape(64, 5) % 5 / 2 - 1.2)
P.case(same, h=9, w=8, dy=2, dx=-1)
P.case(same, h=9, w=9, dy=-2, dx=2, n=1)
P.case(same, h=10, w=11, dy=1, dx=2, win=4)
for k in (dict(), dict(back=True), dict(dark=True),
          dict(dark=True, back=True),
          dict(surf='FC', back=True, pad=3), dict(margin=0, win=0, size=1),
          dict(dim=2, method='poly_fit', size=5, norm=False,
               norm_global=True, chunk_size=3),
          dict(find='umpa', back=True), dict(find='umpa', dark=True),
          dict(find='umpa', dark=True, back=True, filter_name='hann',
               method='poly_fit', size=5, chunk_size=7),
          dict(pad=2, mode='edge'), dict(pad=0), dict(given=True),
          dict(given=True, surf='FC'), dict(margin=2, h=12, w=12),
          dict(win=5), dict(win=7, back=True, h=13),
          dict(win=8, h=14, w=13, find='umpa', back=True)):
    P.case(chain, **k)
P.case(refused)
