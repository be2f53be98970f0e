"""Listing of hdf files; presence of a sample in a sinogram."""
import os
import numpy as onp
from engine.registry import Prop

P = Prop('C37', ['io.loadersaver.get_hdf_tree',
                 'io.loadersaver._make_tree_body',
                 'io.loadersaver._add_branches',
                 'io.loadersaver._get_subgroups',
                 'util.utility.detect_sample'],
         'files of up to 6 datasets and groups on up to 4 levels, each '
         'there or not (symbolic); listed sinograms of 20..40 pixels with '
         'and without a sample, of any gain',
         ['float32 rounding'],
         'external links; deciding about samples in general')
IO = 'algotom.io.loadersaver'
UT = 'algotom.util.utility'


def parse(line):
    """Level, name and shape of a line, None for a line of connectors."""
    t = line.lstrip('│├└─ ')
    if not t:
        return None
    name, _, shape = t.partition(' ')
    return len(line) - len(t), name, shape


def nodes(spec):
    """Everything below every group, in order."""
    tree = {}
    for path, v in spec.items():
        t = tree
        parts = path.split('/')
        for p in parts[:-1]:
            t = t.setdefault(p, {})
        t.setdefault(parts[-1], {} if v is None else onp.shape(v))
    out = []

    def walk(t, depth):
        for k in sorted(t):
            if isinstance(t[k], dict):
                out.append((depth, k, ''))
                walk(t[k], depth + 1)
            else:
                out.append((depth, k, str(tuple(t[k]))))
    walk(tree, 0)
    return out


def tree(ctx, spec, add_shape=True, save=False, display=False):
    """Every group and dataset once, below its group, with its shape."""
    m = ctx.mod(IO)
    d = ctx.tmp()
    have = {}
    for i, (k, shape) in enumerate(spec):
        if i == 0 or ctx.bool('has%d' % i):
            have[k] = None if shape is None else onp.zeros(shape)
    path = os.path.join(d, 'a.hdf')
    ctx.put_hdf(path, have)
    k = {'output': os.path.join(d, 'new', 'tree.txt')} if save else {}
    got = list(m.get_hdf_tree(path, add_shape=add_shape, display=display,
                              **k))
    want = nodes(have)
    if not add_shape:
        want = [(a, b, '') for a, b, c in want]
    rows = [r for r in map(parse, got) if r]
    ctx.check('names', [r[1] for r in rows] == [w[1] for w in want])
    ctx.check('shapes', [r[2] for r in rows] == [w[2] for w in want])
    off = sorted(set(r[0] for r in rows))
    ctx.check('levels', [off.index(r[0]) for r in rows] ==
              [w[0] for w in want])
    for i, line in enumerate(got):
        if not parse(line) or '──' not in line:
            continue
        c = line.index('──') - 1
        last = line[c] == '└'
        after = [parse(v) for v in got[i + 1:]]
        sib = None
        for v in after:
            if v and v[0] <= parse(line)[0]:
                sib = v[0] == parse(line)[0]
                break
        ctx.check('connectors', last == (not sib) and line[c] in '├└')
    if save:
        with open(k['output'], encoding='UTF-8') as f:
            ctx.check('saved', f.read().split('\n') == got + [''])


def missing(ctx):
    m = ctx.mod(IO)
    d = ctx.tmp()
    ctx.raises('no file', (OSError, ValueError), lambda: m.get_hdf_tree(
        os.path.join(d, 'none.hdf'), display=False))


def sino(kind, h, w):
    rng = onp.random.RandomState(1)
    a = 0.02 * rng.rand(h, w)
    if kind == 'sample':
        t = onp.linspace(0, onp.pi, h)[:, None]
        x = onp.arange(w)[None, :] - w / 2
        for r, s in ((0.3 * w, 0.2), (0.35 * w, 1.7), (0.1 * w, 0.9)):
            a = a + onp.exp(-((x - r * onp.cos(t - s)) / 1.5) ** 2)
    elif kind == 'still':
        y, x = onp.mgrid[:h, :w]
        a = onp.exp(-((y - 0.4 * h) ** 2 + (x - 0.6 * w) ** 2) / 8)
    elif kind == 'stripes':
        a = a + onp.sin(onp.arange(w) * 2.0)[None, :]
    return a


def sample(ctx, kind, h, w, typ):
    """The answer does not depend on the gain; a half turn is completed by
    its mirror image."""
    m = ctx.mod(UT)
    np = ctx.np
    ctx.single_bounds()
    g = ctx.real('g', 0.25, 4)
    a = sino(kind, h, w)
    s = np.asarray([[v * g for v in r] for r in a.tolist()])
    k = {} if typ is None else {'sino_type': typ}
    got = m.detect_sample(s, **k)
    ctx.check('gain', got == m.detect_sample(np.asarray(a.tolist()), **k))
    if typ != '360':
        b = onp.vstack((a, a[:, ::-1])).tolist()
        ctx.check('mirrored half', got == m.detect_sample(
            np.asarray(b), sino_type='360'))
    if kind != 'flat':
        ctx.check('sample', got == (kind == 'sample'))
    ctx.raises('type', ValueError, lambda: m.detect_sample(
        s, sino_type='90'))


A = [('entry/data/data', (2, 3, 4)), ('entry/data/angle', (2,)),
     ('entry/energy', ()), ('entry/inst/b', (2, 2)), ('entry/inst/a/z', (1,)), ('entry/empty', None),
     ('log', (5, 1))]
B = [('x/y/z/z', (3,)), ('x/y/z/k', (1, 2)), ('x/y2/z', (2, 2)),
     ('x/a', None), ('a/y/z', (4,)), ('c', ()), ('b', None)]
C = [('data', (3, 2)), ('data2', (1,)), ('a', None), ('z', None),
     ('a/a', None), ('z/data', (2,))]
P.case(tree, spec=A)
P.case(tree, spec=B, add_shape=False)
P.case(tree, spec=B, save=True)
P.case(tree, spec=C, display=True)
P.case(tree, spec=[('empty', None), ('a', None)])
P.case(missing)
for kind in ('sample', 'stripes', 'flat', 'still'):
    P.case(sample, kind=kind, h=23, w=22, typ=None)
    P.case(sample, kind=kind, h=24, w=21, typ='180')
    P.case(sample, kind=kind, h=30, w=25, typ='360')
