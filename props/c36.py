"""Reconstruction by other packages (gridrec of Tomopy, Astra-Toolbox)."""
import math
import sys
import types
import numpy as onp
from scipy import ndimage as ndi
from engine.registry import Prop
from props.common import linmap
from props.c14 import bp, lerp
from props.c15 import build, neg_log, masked, default_pad

P = Prop('C36', ['rec.reconstruction.gridrec_reconstruction',
                 'rec.reconstruction.astra_reconstruction',
                 'rec.reconstruction.__astra_recon_single'],
         'sinograms of 2..4 angles x 4..7 columns, 1..3 slices, all pixels '
         'symbolic; listed centers, angles, pads, methods, filters, mask '
         'ratios and core counts',
         ['the packages are not installed: back projections of documented '
          'geometry stand in for them', 'float32 rounding',
          'the logarithm is an uninterpreted function of every pixel'],
         'what the packages themselves do')
REC = 'algotom.rec.reconstruction'
PIX = {'shepp': 1.0, 'hann': 2.0, 'ram-lak': 3.0, 'parzen': 0.5,
       'cosine': 1.5}


def bpe(sino, angles, center):
    """Back projection of rows that go on beyond their ends."""
    n = len(sino[0])
    out = []
    for y in range(n):
        out.append([])
        for x in range(n):
            s = 0.0
            for row, t in zip(sino, angles):
                p = (x - (n - 1) / 2) * math.cos(t) - \
                    (y - (n - 1) / 2) * math.sin(t) + center
                p = min(max(round(p, 9), 0.0), n - 1.0)
                k = min(int(p), n - 2)
                s = s + row[k] * (k + 1 - p) + row[k + 1] * (p - k)
            out[-1].append(s)
    return out


class Tomopy(types.ModuleType):
    """Back projection of stacks (angle, slice, column) about a column; the
    middle of the slice is that of the stack."""

    def __init__(self, ctx):
        super().__init__('tomopy')
        self.ctx = ctx
        self.calls = []

    def recon(self, tomo, theta, center=None, sinogram_order=False,
              algorithm=None, **k):
        np = self.ctx.np
        rows = self.ctx.nested(tomo)
        th = [float(t) for t in self.ctx.nested(np.asarray(theta))]
        assert algorithm == 'gridrec' and len(th) == len(rows)
        self.calls.append(dict(k, width=len(rows[0][0])))
        g = PIX[k['filter_name']] * float(k['filter_par'])
        out = []
        for i in range(len(rows[0])):
            img = bp([r[i] for r in rows], th, float(center), False)
            out.append([[v * g for v in r] for r in img])
        return np.asarray(out)


class Astra(types.ModuleType):
    """Back projection about the middle of a sinogram."""

    def __init__(self, ctx):
        super().__init__('astra')
        self.ctx = ctx
        self.n = 0
        self.data, self.alg, self.proj = {}, {}, {}
        self.runs, self.geom = [], []
        self.data2d = types.SimpleNamespace(
            create=self._data, get=self._get, delete=self.data.pop)
        self.algorithm = types.SimpleNamespace(
            create=self._alg, run=self._run, delete=self.alg.pop)

    def _new(self, tab, v):
        self.n += 1
        tab[self.n] = v
        return self.n

    def create_proj_geom(self, kind, size, n, angles):
        assert kind == 'parallel' and size == 1
        self.geom.append(int(n))
        return ('proj', int(n), [float(t) for t in angles])

    def create_vol_geom(self, n, m):
        assert n == m
        return ('vol', int(n))

    def create_projector(self, kind, p, v):
        assert p[1] == v[1]
        return self._new(self.proj, (kind, p, v))

    def astra_dict(self, method):
        return {'type': method}

    def _data(self, kind, geom, data=None):
        assert kind == {'proj': '-sino', 'vol': '-vol'}[geom[0]]
        if kind == '-sino':
            assert tuple(data.shape) == (len(geom[2]), geom[1])
        return self._new(self.data, [geom, data])

    def _alg(self, cfg):
        if cfg['type'] == 'ART':
            raise Exception('not built')
        cpu = 'CUDA' not in cfg['type']
        assert cpu == ('ProjectorId' in cfg)
        if cpu:
            assert cfg['ProjectorId'] in self.proj
        return self._new(self.alg, dict(cfg))

    def _run(self, i, num):
        cfg = self.alg[i]
        geom, data = self.data[cfg['ProjectionDataId']]
        vol = self.data[cfg['ReconstructionDataId']]
        n = geom[1]
        g = PIX[cfg.get('FilterType', 'shepp')] * num
        img = bpe(self.ctx.nested(data), geom[2], (n - 1) / 2.0)
        vol[1] = self.ctx.np.asarray([[v * g for v in r] for r in img])
        self.runs.append((cfg['type'], cfg.get('FilterType'), num))

    def _get(self, i):
        return self.data[i][1]


class Using:
    """Packages and GPU there or not."""

    def __init__(self, m, gpu=True, **mods):
        self.m, self.gpu, self.mods = m, gpu, mods

    def __enter__(self):
        self.old = {k: sys.modules.get(k, 0) for k in self.mods}
        self.cuda = self.m.cuda
        sys.modules.update(self.mods)
        self.m.cuda = types.SimpleNamespace(is_available=lambda: self.gpu)

    def __exit__(self, *a):
        self.m.cuda = self.cuda
        for k, v in self.old.items():
            if v == 0:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def default_angles(nrow):
    return [math.pi * i / (nrow - 1) for i in range(nrow)]


def wide(w, pad):
    """Width of a power of two, and its share on the left."""
    if pad is False:
        return w, 0
    n = 1
    while n < w + (0 if pad is True else 2 * pad):
        n *= 2
    return n, (n - w) // 2


def gridrec(ctx, nrow, n, w, center, angles=None, ratio=1.0, flt='hann',
            pad=2, par=None, data=None, ncore=2, plain=False):
    """Every slice is the (padded) slice about the center."""
    m = ctx.mod(REC)
    np = ctx.np
    s = build(ctx, (nrow, n, w) if n else (nrow, w), data)
    keep = np.copy(s)
    tp = Tomopy(ctx)
    k = {} if plain else dict(ratio=ratio, filter_name=flt, pad=pad,
                              ncore=ncore)
    if par is not None:
        k['filter_par'] = par
    if angles is not None:
        k['angles'] = np.asarray(list(angles))
    with Using(m, tomopy=tp):
        out = m.gridrec_reconstruction(s, center, apply_log=data is not None,
                                       **k)
    if plain:
        ratio, flt, pad = 1.0, 'shepp', 100
    th = default_angles(nrow) if angles is None else angles
    size, left = wide(w, pad)
    g = PIX[flt or 'shepp'] * (0.9 if par is None else par)
    ctx.equal('shape', list(out.shape), [w, n, w] if n else [w, w])
    ctx.check('padding', all(c['width'] == size for c in tp.calls))
    if not plain:
        ctx.check('cores', all(
            c['ncore'] >= 1 and (ncore is None or
                                 c['ncore'] == max(ncore, 1))
            for c in tp.calls))
    mid = (size - 1) / 2 - left
    for i in range(n or 1):
        rows = neg_log(ctx, ctx.nested(keep[:, i] if n else keep),
                       data is not None)
        rows = [[r[0]] * left + r + [r[-1]] * (size - w - left)
                for r in rows]
        img = [[sum(lerp(r, (x - mid) * math.cos(t) - (y - mid) *
                         math.sin(t) + center + left, False)
                    for r, t in zip(rows, th)) * g for x in range(w)]
               for y in range(w)]
        ctx.equal('slice', out[:, i] if n else out,
                  masked(img, ratio, center))
    ctx.equal('input untouched', s, keep)


def astra(ctx, nrow, n, w, center, angles=None, ratio=1.0, method='FBP_CUDA',
          num=1, flt='hann', pad=1, data=None, ncore=1, gpu=True):
    """Every slice is the slice about the center, by the method and filter
    asked for."""
    m = ctx.mod(REC)
    np = ctx.np
    s = build(ctx, (nrow, n, w) if n else (nrow, w), data)
    keep = np.copy(s)
    a = Astra(ctx)
    k = {} if angles is None else {'angles': np.asarray(list(angles))}
    with Using(m, gpu=gpu, astra=a):
        out = m.astra_reconstruction(
            s, center, ratio=ratio, method=method, num_iter=num,
            filter_name=flt, pad=pad, apply_log=data is not None,
            ncore=ncore, **k)
    th = default_angles(nrow) if angles is None else angles
    used = method if gpu else method.replace('_CUDA', '')
    f = (flt or 'ram-lak') if used.startswith('FBP') else None
    ctx.check('method, filter, iterations',
              a.runs == [(used, f, num)] * (n or 1))
    ctx.check('nothing left', not a.data and not a.alg)
    p = default_pad(w) if pad is None else pad
    ctx.check('padding', a.geom == [w + 2 * p] * (n or 1))
    ctx.equal('shape', list(out.shape), [w, n, w] if n else [w, w])
    g = PIX[f or 'shepp'] * num
    c = float(center)
    for i in range(n or 1):
        rows = neg_log(ctx, ctx.nested(keep[:, i] if n else keep),
                       data is not None)
        if (w - 1) / 2 - c != int((w - 1) / 2 - c):
            e = w + 2 * p
            rows = linmap(lambda q: ndi.shift(
                onp.pad(q, ((0, 0), (p, p)), mode='edge'),
                (0, (e - 1) / 2 - (c + p)), mode='nearest'), rows,
                ('shift', p, c))
            img = bpe(rows, th, (e - 1) / 2)
            img = [r[p:p + w] for r in img[p:p + w]]
        else:
            img = bpe(rows, th, c)
        ctx.equal('slice', out[:, i] if n else out,
                  masked([[v * g for v in r] for r in img], ratio, c))
    ctx.equal('input untouched', s, keep)


def refused(ctx):
    m = ctx.mod(REC)
    s = ctx.array('s', (3, 5))
    t = ctx.np.asarray([0.0, 1.0])
    g, a = m.gridrec_reconstruction, m.astra_reconstruction
    with Using(m, tomopy=Tomopy(ctx), astra=Astra(ctx)):
        for f in (g, a):
            ctx.raises('angles', ValueError, lambda: f(
                s, 2, angles=t, apply_log=False))
            for c in (-1, 5, 7.5):
                ctx.raises('center', ValueError, lambda: f(
                    s, c, apply_log=False))
        for k in ('FFT', 'EM', 'ART_CUDA', 'XX_CUDA', 'ART'):
            ctx.raises('method ' + k, ValueError, lambda: a(
                s, 2, method=k, apply_log=False))
    with Using(m, gpu=False, astra=Astra(ctx)):
        ctx.raises('no EM', ValueError, lambda: a(
            s, 2, method='EM_CUDA', apply_log=False))
    with Using(m, tomopy=None, astra=None):
        for f in (g, a):
            ctx.raises('not installed', ValueError, lambda: f(
                s, 2, apply_log=False))


T = [0.3, 1.0, 2.1]
P.case(gridrec, nrow=3, n=0, w=5, center=2.0)
P.case(gridrec, nrow=3, n=0, w=5, center=1.3, pad=True, angles=T, flt=None)
P.case(gridrec, nrow=3, n=0, w=4, center=2.2, pad=False, ratio=0.0,
       flt='shepp', par=0.5, ncore=None)
P.case(gridrec, nrow=2, n=2, w=6, center=2.75, pad=1, ratio=None, ncore=0)
P.case(gridrec, nrow=3, n=3, w=4, center=1.4, pad=3, angles=T, ratio=0.8,
       flt='parzen', data='holes')
P.case(gridrec, nrow=2, n=1, w=7, center=3.0, pad=0, data='pos', ratio=0.0)
P.case(gridrec, nrow=2, n=1, w=7, center=0.0, pad=True, flt='cosine')
P.case(gridrec, nrow=2, n=0, w=4, center=3.0, pad=True, data='pos')
P.case(gridrec, nrow=2, n=0, w=5, center=2.2, plain=True)
P.case(astra, nrow=3, n=0, w=5, center=2.0)
P.case(astra, nrow=3, n=0, w=5, center=1.3, pad=0, angles=T, flt=None)
P.case(astra, nrow=3, n=0, w=4, center=2.2, pad=None, ratio=0.0,
       method='FBP')
P.case(astra, nrow=2, n=2, w=6, center=3.5, pad=2, ratio=None, num=3,
       method='SIRT')
P.case(astra, nrow=2, n=2, w=6, center=1.5, pad=2, num=4,
       method='SIRT_CUDA', ratio=0.7)
P.case(astra, nrow=3, n=3, w=4, center=1.4, pad=3, angles=T, ratio=0.8,
       method='CGLS', num=2, data='holes', ncore=2)
P.case(astra, nrow=3, n=3, w=4, center=2.5, pad=1, angles=T, ratio=0.0,
       flt='parzen', data='holes', ncore=None)
P.case(astra, nrow=2, n=1, w=7, center=4.0, pad=None, data='pos', gpu=False)
P.case(astra, nrow=2, n=0, w=7, center=0.0, pad=0, method='BP_CUDA',
       gpu=False, num=2)
P.case(astra, nrow=2, n=2, w=5, center=4.0, pad=2, method='EM_CUDA', num=5)
P.case(astra, nrow=2, n=0, w=6, center=2.5, pad=1, method='SART', num=1,
       data='pos', ratio=0.0)
P.case(refused)
