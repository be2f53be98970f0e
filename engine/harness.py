"""Harness contexts.

One harness function per property is written against a context object and has
two readings:

* SymCtx  - inputs are z3 variables, the modules are the repository's sources
            executed symbolically, `check`/`equal` are proof obligations;
* ConCtx  - inputs are concrete numbers taken from a solver model, the modules
            are the real installed package (numpy, scipy, numba, h5py ...),
            `check`/`equal` are plain comparisons.  Used to replay every
            counterexample and every witness on the real code.
"""
import math
import os
import random
import shutil
import tempfile
import time
import traceback
from fractions import Fraction

REL = 2e-6


class Violated(Exception):
    pass


class Skip(Exception):
    """Concrete run: an assumption does not hold / value missing."""


# ------------------------------------------------------------- concrete
class ConCtx:
    sym = False

    def __init__(self, values, params, scratch):
        import numpy
        self.np = numpy
        self.values = values
        self.params = params
        self.scratch = scratch
        self.failures = []
        self.records = []
        self.math = math

    # inputs
    def _val(self, name):
        if name not in self.values:
            raise Skip("no value for %s" % name)
        return self.values[name]

    def real(self, name, lo=-4, hi=4):
        return float(Fraction(self._val(name)[0]))

    def int(self, name, lo, hi):
        return int(Fraction(self._val(name)[0]))

    def bool(self, name):
        return bool(int(Fraction(self._val(name)[0])))

    def array(self, name, shape, lo=-4, hi=4, dtype='float64'):
        np = self.np
        v = self._val(name)
        if dtype == 'bool':
            return np.array([bool(int(x)) for x in v]).reshape(shape)
        if np.dtype(dtype).kind in 'iu':
            return np.array([int(Fraction(x)) for x in v],
                            dtype=dtype).reshape(shape)
        return np.array([float(Fraction(x)) for x in v],
                        dtype=dtype).reshape(shape)

    def opaque_division(self):
        pass

    def single_bounds(self):
        pass

    def bare_bounds(self):
        pass

    def assume(self, c):
        if not bool(c):
            raise Skip("assumption does not hold")

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    # logic
    def all(self, cs): return all(bool(c) for c in cs)
    def any(self, cs): return any(bool(c) for c in cs)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def ite(self, c, a, b): return a if bool(c) else b
    def floor(self, x): return int(math.floor(x))
    def ceil(self, x): return int(math.ceil(x))
    def rint(self, x): return int(round(float(x)))
    def trunc(self, x): return int(x)
    def min(self, a, b): return min(a, b)
    def max(self, a, b): return max(a, b)

    def close(self, a, b, tol=1e-3):
        if a == b:
            return True
        d = abs(a - b)
        return bool(d < float('inf') and
                    d <= tol / 4 + REL * max(abs(a), abs(b)))

    def list(self, a):
        return self.np.asarray(a).reshape(-1).tolist()

    def nested(self, a):
        """Nested lists of plain numbers."""
        import numpy as np
        a = np.asarray(a)
        return a.astype(float).tolist()

    def dtype(self, a):
        return str(a.dtype)

    def le(self, a, b, tol=1e-3):
        """a <= b up to tolerance."""
        return bool(a <= b + tol / 4 + REL * max(abs(a), abs(b)))

    # obligations
    def fail(self, label, msg=''):
        self.failures.append("%s: %s" % (label, msg))

    def check(self, label, cond):
        if not bool(cond):
            self.fail(label, 'does not hold')

    def equal(self, label, a, b, tol=1e-3):
        np = self.np
        if a is None or b is None or isinstance(a, str) or isinstance(
                b, str):
            if not (a is None and b is None) and a != b:
                self.fail(label, "%r != %r" % (a, b))
            return
        if isinstance(a, (list, tuple)) and any(
                isinstance(x, (list, tuple, np.ndarray)) for x in a):
            if len(a) != len(b):
                self.fail(label, "length %d != %d" % (len(a), len(b)))
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self.equal("%s[%d]" % (label, i), x, y, tol)
            return
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.fail(label, "shape %s != %s" % (a.shape, b.shape))
            return
        if a.dtype.kind in 'US' or b.dtype.kind in 'US':
            if not np.array_equal(a, b):
                self.fail(label, "%s != %s" % (a, b))
            return
        if a.dtype.kind != 'c' and b.dtype.kind != 'c':
            a, b = a.astype(float), b.astype(float)
        self.records.append([label, [complex(x).real for x in
                                     a.reshape(-1)[:64]]])
        with np.errstate(all='ignore'):
            bad = ~(np.abs(a - b) <= tol / 4 + REL * np.maximum(
                np.abs(a), np.abs(b)))
            bad |= np.isinf(a) | np.isinf(b)
        bad &= ~((a == b) | (np.isnan(a) & np.isnan(b)))
        if bad.any():
            k = tuple(int(i) for i in np.argwhere(bad)[0]) if a.ndim else ()
            self.fail(label, "at %s got %r expected %r" % (
                k, a[k].item(), b[k].item()))

    def raises(self, label, exc, f):
        try:
            f()
        except exc:
            return True
        except Exception as e:
            self.fail(label, "raised %s instead of %s" % (
                type(e).__name__, getattr(exc, '__name__', exc)))
            return False
        self.fail(label, "did not raise %s" % getattr(exc, '__name__', exc))
        return False

    def raised(self, exc, f):
        """(value, None) or (None, exception)."""
        try:
            return f(), None
        except exc as e:
            return None, e

    # schedules
    def track_races(self):
        pass

    def no_race(self, label, demo=None):
        if demo is not None and not demo():
            self.fail(label, 'parallel result differs from the sequential')

    # files
    def tmp(self):
        return tempfile.mkdtemp(dir=self.scratch)

    def put_image(self, path, arr):
        from PIL import Image
        os.makedirs(os.path.dirname(path), exist_ok=True)
        Image.fromarray(self.np.asarray(arr)).save(path)

    def get_image(self, path):
        from PIL import Image
        return self.np.array(Image.open(path))

    def put_hdf(self, path, data):
        import h5py
        with h5py.File(path, 'w') as f:
            for k in data:
                if data[k] is None:
                    f.create_group(k)
                else:
                    f.create_dataset(k, data=data[k])

    def get_hdf(self, path, key):
        import h5py
        with h5py.File(path, 'r') as f:
            return f[key][()]

    def close_hdf(self, obj):
        try:
            obj.file.close()
        except Exception:
            pass


# ------------------------------------------------------------- symbolic
class SymCtx:
    sym = True

    def __init__(self, params, runner, loader):
        from engine import snp, sym, shims
        self.np = snp.NP
        self.math = shims.build.math if hasattr(shims.build, 'math') else \
            loader.table['math']
        self.E = sym.ENG
        self.params = params
        self.runner = runner
        self.loader = loader
        self.records = []
        self.S = sym

    # inputs
    def _decl(self, name, shape, lo, hi, kind):
        import z3
        import numpy as np
        E = self.E
        n = 1
        for s in shape:
            n *= s
        ts = []
        out = np.empty(shape, dtype=object)
        fl = out.reshape(-1)
        for i in range(n):
            nm = "%s_%d" % (name, i) if shape else name
            if kind == 'b':
                t = z3.Bool(nm)
                fl[i] = self.S.SB(t)
            elif kind == 'i':
                t = z3.Int(nm)
                E.add(z3.And(t >= lo, t <= hi))
                fl[i] = self.S.S(None, t, True)
            else:
                t = z3.Real(nm)
                E.add(z3.And(t >= z3.RealVal(str(lo)),
                             t <= z3.RealVal(str(hi))))
                E.keep[t.get_id()] = t
                E.bounds[t.get_id()] = [Fraction(str(lo)), False,
                                        Fraction(str(hi)), False]
                fl[i] = self.S.S(None, t, False)
            ts.append(t)
        E.inputs.append((name, kind, ts))
        E.ranges[name] = (Fraction(str(lo)), Fraction(str(hi)))
        return out

    def real(self, name, lo=-4, hi=4):
        return self._decl(name, (), lo, hi, 'r')[()]

    def int(self, name, lo, hi):
        return self._decl(name, (), lo, hi, 'i')[()]

    def bool(self, name):
        return self._decl(name, (), 0, 1, 'b')[()]

    def array(self, name, shape, lo=-4, hi=4, dtype='float64'):
        from engine import snp
        k = 'b' if dtype == 'bool' else (
            'i' if snp._KIND[snp.dtname(dtype)] in 'iu' else 'r')
        return snp.mk(self._decl(name, shape, lo, hi, k), dtype)

    def opaque_division(self):
        """Treat quotients with a symbolic divisor as unknowns determined by
        their operands (only congruence is kept)."""
        self.E.opaque_div = True

    def single_bounds(self):
        """Bring comparisons of one variable to the form x <= c."""
        self.E.norm1 = True

    def bare_bounds(self):
        """Decide comparisons of a scaled variable by the variable's range."""
        self.E.norm2 = True

    def assume(self, c):
        self.E.assume(self.S.as_bool(c))

    def mod(self, name):
        return self.loader.get(name)

    # logic
    def all(self, cs): return self.S.band(*list(cs))
    def any(self, cs): return self.S.bor(*list(cs))
    def implies(self, a, b): return self.S.implies(a, b)
    def ite(self, c, a, b): return self.S.ite(c, a, b)
    def floor(self, x): return self.S.floor(x)
    def ceil(self, x): return self.S.ceil(x)
    def rint(self, x): return self.S.rint(x)
    def trunc(self, x): return self.S.trunc(x)
    def min(self, a, b): return self.S.smin(a, b)
    def max(self, a, b): return self.S.smax(a, b)

    def close(self, a, b, tol=1e-3):
        d = self.S.lift(a) - b
        t = Fraction(str(tol))
        return self.S.band(d <= t, d >= -t)

    def le(self, a, b, tol=1e-3):
        return self.S.lift(a) <= self.S.lift(b) + Fraction(str(tol))

    def list(self, a):
        from engine import snp
        return list(snp._obj(snp.asarray(a)).reshape(-1))

    def nested(self, a):
        from engine import snp
        o = snp._obj(snp.asarray(a))

        def rec(v):
            if getattr(v, 'ndim', 0) == 0:
                return self.S.to_real(self.S.lift(v))
            return [rec(t) for t in v]
        return rec(o)

    def dtype(self, a):
        return a._ldt

    # obligations
    def fail(self, label, msg=''):
        self.runner.refute(label, [], msg)

    def check(self, label, cond):
        c = self.S.as_bool(cond)
        if c is True:
            self.runner.trivial(label)
            return
        import z3
        neg = [] if c is False else [z3.Not(c.e)]
        self.runner.refute(label, neg, 'does not hold')

    def equal(self, label, a, b, tol=1e-3):
        from engine import snp
        import numpy as np
        if isinstance(a, snp.LD) or isinstance(b, snp.LD):
            a, b = str(a), str(b)
        if a is None or b is None or isinstance(a, str) or isinstance(
                b, str):
            if not (a is None and b is None) and not (
                    type(a) is type(b) and a == b):
                self.fail(label, "%r != %r" % (a, b))
            self.runner.trivial(label)
            return
        if isinstance(a, (list, tuple)) and any(
                isinstance(x, (list, tuple, np.ndarray)) for x in a):
            if len(a) != len(b):
                self.fail(label, "length %d != %d" % (len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                self.equal("%s[%d]" % (label, i), x, y, tol)
            return
        oa, ob = snp._obj(snp.asarray(a)), snp._obj(snp.asarray(b))
        if oa.shape != ob.shape:
            self.fail(label, "shape %s != %s" % (oa.shape, ob.shape))
        ds = []
        fa, fb = list(oa.reshape(-1)), list(ob.reshape(-1))
        if len(self.records) < 400:
            self.records.append((label, fa[:64]))
        bad = False
        for x, y in zip(fa, fb):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    self.fail(label, "%r != %r" % (x, y))
                continue
            if isinstance(x, self.S.SC) or isinstance(y, self.S.SC):
                x, y = self.S.SC.of(x), self.S.SC.of(y)
                prs = [(x.re, y.re), (x.im, y.im)]
            else:
                prs = [(x, y)]
            for u, v in prs:
                u, v = self.S.lift(u), self.S.lift(v)
                nfu = u.const and isinstance(u.c, float)
                nfv = v.const and isinstance(v.c, float)
                if nfu or nfv:
                    if not (nfu and nfv and (
                            u.c == v.c or (u.c != u.c and v.c != v.c))):
                        bad = True
                    continue
                d = u - v
                if d.const:
                    if abs(d.c) > tol:
                        bad = True
                    continue
                ds.append(d)
        if bad:
            self.fail(label, 'constant parts differ')
        if not ds:
            self.runner.trivial(label)
            return
        self.runner.refute_eq(label, ds, tol)

    def raises(self, label, exc, f):
        try:
            f()
        except self.S.EngineLimit:
            raise
        except exc:
            self.runner.trivial(label)
            return True
        except Exception as e:
            self.fail(label, "raised %s(%s) instead of %s" % (
                type(e).__name__, e, exc))
        self.fail(label, "did not raise %s" % exc)

    def raised(self, exc, f):
        try:
            return f(), None
        except self.S.EngineLimit:
            raise
        except exc as e:
            return None, e

    # schedules
    def track_races(self):
        from engine import snp, track
        snp.TRACK = track.Track()

    def no_race(self, label, demo=None):
        """No element is written by one parallel iteration and touched by
        another: every schedule gives the result computed here.  `demo` shows
        the race on the real code (False when results differ)."""
        from engine import snp
        t = snp.TRACK
        snp.TRACK = None
        if not t.regions or not t.touched:
            raise self.S.EngineLimit("no parallel region was executed")
        if t.races:
            self.fail(label, t.races[0])
        self.runner.trivial(label)

    # files
    def tmp(self):
        return tempfile.mkdtemp(dir=self.runner.scratch)

    def put_image(self, path, arr):
        from engine import vfs, snp
        os.makedirs(os.path.dirname(path), exist_ok=True)
        vfs.STORE.put(path, ('img', snp.asarray(arr)))

    def get_image(self, path):
        from engine import vfs
        return vfs.STORE.get(path)[1]

    def put_hdf(self, path, data):
        from engine import vfs
        f = vfs.File(path, 'w')
        for k in data:
            if data[k] is None:
                f.create_group(k)
            else:
                f.create_dataset(k, data=data[k])

    def get_hdf(self, path, key):
        from engine import vfs
        return vfs.File(path, 'r')[key].arr

    def close_hdf(self, obj):
        pass
