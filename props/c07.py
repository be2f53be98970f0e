"""Flat-field correction."""
from engine.registry import Prop

P = Prop('C07', ['prep.correction.flat_field_correction'],
         'projections of 2x3 .. 3x4x3 pixels, all pixel values (float, '
         'float32 and uint16), any exposure ratio in [0.25, 4], every '
         'pattern of zero denominators; option chains of length 0..3',
         ['option methods other than the numpy ones are called through their '
          'own encodings'], 'images larger than the bound')
CORR = 'algotom.prep.correction'


def formula(ctx, shape, dark, dt, ratio1=False):
    m = ctx.mod(CORR)
    np = ctx.np
    lo, hi = (1, 60000) if dt == 'uint16' else (-4, 4)
    fs = shape[-2:] if len(shape) == 2 else shape[1:]
    proj = ctx.array('proj', shape, 0 if dt == 'uint16' else lo, hi, dtype=dt)
    flat = ctx.array('flat', fs, lo, hi, dtype=dt)
    dk = ctx.array('dark', fs, 0 if dt == 'uint16' else lo, hi, dtype=dt)
    r = 1.0 if ratio1 else ctx.real('ratio', 0.25, 4)
    fl, dl, pl = ctx.nested(flat), ctx.nested(dk), ctx.nested(proj)
    den = [[r * fl[i][j] - (dl[i][j] if dark else 0)
            for j in range(fs[1])] for i in range(fs[0])]
    for row in den:
        for d in row:
            ctx.assume(ctx.any([d > 0.01, d < -0.01]))
    keep = [np.copy(v) for v in (proj, flat, dk)]
    kw = {} if ratio1 else {'ratio': r}
    out = m.flat_field_correction(proj, flat, dk, use_dark=dark, **kw)
    ctx.equal('inputs untouched', [proj, flat, dk], keep)
    ol = ctx.nested(out)
    if len(shape) == 2:
        pl, ol = [pl], [ol]
    for k in range(len(pl)):
        for i in range(fs[0]):
            for j in range(fs[1]):
                # no division: out * den == proj - dark
                n = pl[k][i][j] - (dl[i][j] if dark else 0)
                ctx.equal('corrected value times reference',
                          ol[k][i][j] * den[i][j], n,
                          1e-3 if dt != 'uint16' else 0.5)


def zeros(ctx, dark, pattern):
    """Dead reference pixels are replaced by the mean reference."""
    m = ctx.mod(CORR)
    np = ctx.np
    n = len(pattern)
    flat = ctx.array('flat', (2, n // 2), 0.5, 4)
    dk = ctx.array('dark', (2, n // 2), 0, 0.25)
    proj = ctx.array('proj', (2, n // 2), 0, 4)
    for k, z in enumerate(pattern):
        i, j = k // (n // 2), k % (n // 2)
        if z == '0':
            flat[i, j] = dk[i, j] if dark else 0.0
    keep = [np.copy(v) for v in (proj, flat, dk)]
    out = m.flat_field_correction(proj, flat, dk, use_dark=dark)
    ref = flat - dk if dark else flat
    if '1' in pattern:
        mean = np.sum(ref) / float(n)
    else:
        mean = 1.0
    for k, z in enumerate(pattern):
        i, j = k // (n // 2), k % (n // 2)
        d = mean if z == '0' else ref[i, j]
        num = proj[i, j] - (dk[i, j] if dark else 0)
        ctx.equal('finite everywhere', out[i, j] * d, num)
    ctx.equal('inputs untouched', [proj, flat, dk], keep)


def chain(ctx, nd, ops):
    """Options are applied in order, sinogram by sinogram for 3D data."""
    m = ctx.mod(CORR)
    mods = [ctx.mod('algotom.prep.removal'), ctx.mod('algotom.prep.filtering')]
    shape = (5, 4) if nd == 2 else (5, 2, 4)
    proj = ctx.array('proj', shape, 0.5, 4)
    fs = shape if nd == 2 else shape[1:]
    flat = ctx.np.ones(fs) * 2.0
    dark = ctx.np.zeros(fs)
    opts = {}
    for k, (name, para) in enumerate(ops):
        d = {'method': name}
        for i, p in enumerate(para):
            d['para%d' % i] = p
        opts['option%d' % k] = d
    out = m.flat_field_correction(proj, flat, dark, **opts)

    def run(sino):
        for name, para in ops:
            for md in mods:
                if hasattr(md, name):
                    sino = getattr(md, name)(sino, *para)
                    break
        return sino
    base = proj / 2.0
    if nd == 2:
        ctx.equal('chain', out, run(base))
    else:
        for j in range(shape[1]):
            ctx.equal('chain', out[:, j, :], run(base[:, j, :]))
    plain = m.flat_field_correction(proj, flat, dark, option=None)
    ctx.equal('no option', plain, base)


def modules(ctx, nd, where):
    """Methods of every module get the data and their parameters."""
    m = ctx.mod(CORR)
    mod = ctx.mod('algotom.prep.' + where)
    shape = (2, 3) if nd == 2 else (2, 3, 2)
    proj = ctx.array('proj', shape, 0.5, 4)
    flat = ctx.np.ones(shape[-2:] if nd == 2 else shape[1:]) * 2.0
    flat, dark = flat * 1.0, flat * 0.0
    mod.plus_scaled = lambda mat, a, b: (mat + a) * b + mat[0, 0]
    mod.doubled = lambda mat: mat * 2.0
    try:
        out = m.flat_field_correction(
            proj, flat, dark, opt1={'method': 'plus_scaled', 'a': 3.0,
                                    'b': 0.5},
            opt2=None, opt3={'method': 'doubled'})
    finally:
        del mod.plus_scaled, mod.doubled
    for j in range(1 if nd == 2 else shape[1]):
        a = (proj if nd == 2 else proj[:, j]) / 2.0
        ctx.equal('methods', out if nd == 2 else out[:, j],
                  ((a + 3.0) * 0.5 + a[0, 0]) * 2.0)


def wrong(ctx, nd):
    m = ctx.mod(CORR)
    shape = (3, 4) if nd == 2 else (2, 3, 4)
    proj = ctx.array('proj', shape, 0.5, 4)
    fs = shape if nd == 2 else shape[1:]
    flat, dark = ctx.np.ones(fs), ctx.np.zeros(fs)
    ctx.raises('unknown method', ValueError, lambda: m.flat_field_correction(
        proj, flat, dark, option={'method': 'no_such_method'}))
    ctx.raises('not a dictionary', ValueError,
               lambda: m.flat_field_correction(proj, flat, dark, option=5))


for dark in (True, False):
    P.case(formula, shape=(2, 3), dark=dark, dt='float64')
    P.case(formula, shape=(2, 2, 3), dark=dark, dt='float32')
    P.case(formula, shape=(2, 3), dark=dark, dt='uint16')
    P.case(formula, shape=(2, 2, 2), dark=dark, dt='uint16', ratio1=True)
    P.case(formula, shape=(3, 4, 3), dark=dark, dt='float64', ratio1=True,
           tier='thorough')
    for pat in ('1011', '0011', '110110', '0000', '1111', '000001'):
        P.case(zeros, dark=dark, pattern=pat)
Z = ('remove_zinger', (0.3, 1))
S = ('remove_stripe_based_filtering', (1, 3, 1, True))
N = ('remove_stripe_based_normalization', (1, 1, True))
P.case(chain, nd=2, ops=(Z,))
P.case(chain, nd=2, ops=(N,))
P.case(chain, nd=3, ops=(N,))
P.case(chain, nd=3, ops=(Z,))
P.case(chain, nd=2, ops=(Z, N))
P.case(chain, nd=3, ops=(N, Z))
for nd in (2, 3):
    P.case(wrong, nd=nd)
    for where in ('removal', 'filtering', 'phase'):
        P.case(modules, nd=nd, where=where)
