"""Symbolic stand-in for numpy: object arrays of exact scalars (engine.sym)."""
import builtins
import functools
import itertools
import math
import operator
import types
from fractions import Fraction
import numpy as np
import z3
from engine import sym
from engine.sym import (S, SB, SC, lift, arith, cmp, ite, band, bor, bnot,
                        as_bool, EngineLimit, uf, un, ENG, smin, smax)

_KIND = {'float16': 'f', 'float32': 'f', 'float64': 'f', 'float': 'f',
         'int8': 'i', 'int16': 'i', 'int32': 'i', 'int64': 'i', 'int': 'i',
         'uint8': 'u', 'uint16': 'u', 'uint32': 'u', 'uint64': 'u',
         'bool': 'b', 'complex64': 'c', 'complex128': 'c', 'object': 'O'}
_SIZE = {'float16': 2, 'float32': 4, 'float64': 8, 'int8': 1, 'int16': 2,
         'int32': 4, 'int64': 8, 'uint8': 1, 'uint16': 2, 'uint32': 4,
         'uint64': 8, 'bool': 1, 'complex64': 8, 'complex128': 16,
         'object': 8}


def dtname(dt):
    if dt is None:
        return 'float64'
    if isinstance(dt, LD):
        return dt.name
    if isinstance(dt, str):
        dt = dt.lstrip('<>=|')
        return {'float': 'float64', 'int': 'int64', 'f4': 'float32',
                'f8': 'float64', 'f': 'float32', 'd': 'float64',
                'u1': 'uint8', 'u2': 'uint16', 'i4': 'int32', 'i8': 'int64',
                'i2': 'int16', '?': 'bool', 'bool_': 'bool',
                'complex': 'complex128'}.get(dt, dt)
    nm = getattr(dt, '_ldname', None)
    if nm:
        return nm
    if dt is float:
        return 'float64'
    if dt is int:
        return 'int64'
    if dt is bool:
        return 'bool'
    if dt is complex:
        return 'complex128'
    if dt is object:
        return 'object'
    return np.dtype(dt).name


class LD:
    """Logical dtype."""

    def __init__(self, name):
        self.name = dtname(name)

    @property
    def kind(self):
        return _KIND[self.name]

    @property
    def itemsize(self):
        return _SIZE[self.name]

    @property
    def type(self):
        return SCALARS[self.name]

    @property
    def char(self):
        return np.dtype(self.name).char

    @property
    def str(self):
        return np.dtype(self.name).str

    def __eq__(self, o):
        try:
            return self.name == dtname(o)
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "dtype('%s')" % self.name

    __str__ = lambda self: self.name


def ldt(x):
    """Logical dtype name of anything."""
    if isinstance(x, SArr):
        return x._ldt
    if isinstance(x, np.ndarray):
        return infer(x) if x.dtype == object else x.dtype.name
    if isinstance(x, S):
        return 'int64' if x.i else 'float64'
    if isinstance(x, (SB, bool, np.bool_)):
        return 'bool'
    if isinstance(x, (SC, complex)):
        return 'complex128'
    if isinstance(x, (int, np.integer)):
        return 'int64'
    return 'float64'


def infer(a):
    k = 0
    for v in np.asarray(a, dtype=object).ravel():
        if isinstance(v, (SC, complex)):
            return 'complex128'
        if isinstance(v, (bool, SB, np.bool_)):
            continue
        if isinstance(v, (int, np.integer)) or (isinstance(v, S) and v.i):
            k = max(k, 1)
        elif isinstance(v, (S, float, Fraction, np.floating)):
            k = max(k, 2)
        else:
            return 'object'
    return ('bool', 'int64', 'float64')[k] if a.size else 'float64'


def promote(*names):
    ks = [_KIND.get(n, 'O') for n in names]
    if 'O' in ks:
        return 'object'
    try:
        return functools.reduce(lambda a, b: np.promote_types(a, b).name,
                                names)
    except TypeError:
        return 'float64'


# ------------------------------------------------------------------ array
class SArr(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        self._ldt = getattr(obj, '_ldt', 'float64')

    # -- attributes
    @property
    def dtype(self):
        return LD(self._ldt)

    @property
    def plain(self):
        return self.view(np.ndarray)

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    @property
    def nbytes(self):
        return self.size * _SIZE[self._ldt]

    @property
    def itemsize(self):
        return _SIZE[self._ldt]

    # -- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        return function_dispatch(func, args, kwargs)

    # -- indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, val):
        setitem(self, idx, val)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for k in range(self.shape[0]):
            yield self[k]

    def __contains__(self, v):
        return bool(any_(cmpop('eq', self, v)))

    # -- operators
    def __add__(self, o): return binop('add', self, o)
    def __radd__(self, o): return binop('add', o, self)
    def __sub__(self, o): return binop('sub', self, o)
    def __rsub__(self, o): return binop('sub', o, self)
    def __mul__(self, o): return binop('mul', self, o)
    def __rmul__(self, o): return binop('mul', o, self)
    def __truediv__(self, o): return binop('div', self, o)
    def __rtruediv__(self, o): return binop('div', o, self)
    def __floordiv__(self, o): return binop('fdiv', self, o)
    def __rfloordiv__(self, o): return binop('fdiv', o, self)
    def __mod__(self, o): return binop('mod', self, o)
    def __rmod__(self, o): return binop('mod', o, self)
    def __pow__(self, o): return binop('pow', self, o)
    def __rpow__(self, o): return binop('pow', o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def _inp(self, op, o):
        r = binop(op, self, o)
        if np.shape(r) != self.shape:
            raise ValueError("non-broadcastable output operand")
        assign(self, r)
        return self

    def __iadd__(self, o): return self._inp('add', o)
    def __isub__(self, o): return self._inp('sub', o)
    def __imul__(self, o): return self._inp('mul', o)
    def __itruediv__(self, o): return self._inp('div', o)
    def __ifloordiv__(self, o): return self._inp('fdiv', o)
    def __imod__(self, o): return self._inp('mod', o)
    def __ipow__(self, o): return self._inp('pow', o)

    def __neg__(self):
        return emap(lambda v: -lift(v), self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return emap(lambda v: abs(lift(v)), self)

    def __invert__(self):
        if self._ldt == 'bool':
            return emap(bnot, self, dt='bool')
        return emap(lambda v: ~lift(v), self)

    def __and__(self, o): return binlog('and', self, o)
    def __rand__(self, o): return binlog('and', o, self)
    def __or__(self, o): return binlog('or', self, o)
    def __ror__(self, o): return binlog('or', o, self)
    def __xor__(self, o): return binlog('xor', self, o)
    def __rxor__(self, o): return binlog('xor', o, self)

    def __iand__(self, o):
        assign(self, binlog('and', self, o))
        return self

    def __ior__(self, o):
        assign(self, binlog('or', self, o))
        return self

    def __lt__(self, o): return cmpop('lt', self, o)
    def __le__(self, o): return cmpop('le', self, o)
    def __gt__(self, o): return cmpop('gt', self, o)
    def __ge__(self, o): return cmpop('ge', self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return emap(lambda v: False, self, dt='bool')
        return cmpop('eq', self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return emap(lambda v: True, self, dt='bool')
        return cmpop('ne', self, o)

    __hash__ = None

    def __bool__(self):
        if self.size == 1:
            return bool(as_bool(self.plain.reshape(-1)[0]))
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return operator.index(self.plain[()])
        raise TypeError("only integer scalar arrays can be converted to a "
                        "scalar index")

    def __round__(self, n=0):
        return around(self, n)

    def __repr__(self):
        return "SArr(%s, %s)" % (self.shape, self._ldt)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- methods
    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else int(a[0])]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1")
        return self.plain.reshape(-1)[0]

    def astype(self, dt, *a, **k):
        return cast(self, dt)

    def copy(self, *a, **k):
        return mk(np.array(self.plain, dtype=object, copy=True), self._ldt)

    def tolist(self):
        return self.plain.tolist()

    def _m(name):
        def f(self, *a, **k):
            return getattr(NP, name)(self, *a, **k)
        return f
    sum = _m('sum'); mean = _m('mean'); max = _m('max'); min = _m('min')
    std = _m('std'); var = _m('var'); prod = _m('prod')
    argmax = _m('argmax'); argmin = _m('argmin'); any = _m('any')
    all = _m('all'); clip = _m('clip'); cumsum = _m('cumsum')
    argsort = _m('argsort'); round = _m('round'); dot = _m('dot')
    nonzero = _m('nonzero'); conj = _m('conjugate'); ptp = _m('ptp')
    conjugate = _m('conjugate'); repeat = _m('repeat'); take = _m('take')
    del _m

    def sort(self, axis=-1, **k):
        assign(self, sort(self, axis))

    def fill(self, v):
        assign(self, v)

    def flatten(self, *a, **k):
        return mk(np.array(self.plain).reshape(-1), self._ldt)

    def ravel(self, *a, **k):
        return mk(self.plain.reshape(-1), self._ldt)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr)):
            shape = tuple(shape[0])
        return mk(self.plain.reshape(tuple(operator.index(s)
                                           for s in shape)), self._ldt)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if axes == (None,):
            axes = ()
        return mk(self.plain.transpose(*[int(a) for a in axes]), self._ldt)

    @property
    def T(self):
        return mk(self.plain.T, self._ldt)

    def swapaxes(self, a, b):
        return mk(self.plain.swapaxes(int(a), int(b)), self._ldt)

    def squeeze(self, axis=None):
        return mk(self.plain.squeeze(axis), self._ldt)

    def setflags(self, *a, **k):
        pass

    def tobytes(self, *a):
        raise EngineLimit("tobytes")


def mk(a, dt=None):
    """Wrap an object ndarray as SArr (0-d -> scalar)."""
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype != object:
        return tosym(a)
    if a.ndim == 0:
        return a[()]
    r = a.view(SArr)
    r._ldt = dtname(dt) if dt is not None else infer(a)
    return r


def _obj(x):
    """Anything -> plain object ndarray (0-d for scalars)."""
    if isinstance(x, SArr):
        return x.plain
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return _from_list(x)
    if hasattr(x, '__sym_array__'):
        return _obj(x.__sym_array__())
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _from_list(x):
    parts = [_obj(v) for v in x]
    if not parts:
        return np.empty((0,), dtype=object)
    sh = parts[0].shape
    for p in parts:
        if p.shape != sh:
            raise ValueError("setting an array element with a sequence. The "
                             "requested array has an inhomogeneous shape")
    out = np.empty((len(parts),) + sh, dtype=object)
    for k, p in enumerate(parts):
        out[k] = p if sh else p[()]
    return out


def tosym(x):
    """real ndarray / scalar -> exact symbolic representation."""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return mk(x)
        dt = x.dtype.name
        if x.ndim == 0:
            return lift(x.item())
        if x.dtype.kind not in 'fiubc':
            return x
        out = np.empty(x.shape, dtype=object)
        fl = out.reshape(-1)
        src = x.reshape(-1)
        for k in range(src.size):
            v = src[k].item()
            fl[k] = v if isinstance(v, bool) else lift(v)
        return mk(out, dt)
    if isinstance(x, np.generic):
        v = x.item()
        return v if isinstance(v, (bool, str)) else lift(v)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(tosym(v) for v in x)
    if isinstance(x, list):
        return [tosym(v) for v in x]
    return x


def tofloat(x):
    """symbolic-but-constant -> real numpy; EngineLimit if symbolic."""
    if isinstance(x, SArr):
        nm = x._ldt
        try:
            out = np.empty(x.shape, dtype=nm if nm != 'object' else float)
            fl = out.reshape(-1)
            for k, v in enumerate(x.plain.reshape(-1)):
                fl[k] = _pyval(v)
            return out
        except EngineLimit:
            raise
    if isinstance(x, (S, SB, SC)):
        return _pyval(x)
    if isinstance(x, tuple):
        return tuple(tofloat(v) for v in x)
    if isinstance(x, list):
        return [tofloat(v) for v in x]
    if isinstance(x, dict):
        return {k: tofloat(v) for k, v in x.items()}
    if isinstance(x, np.ndarray) and x.dtype == object:
        return tofloat(mk(x))
    if isinstance(x, slice):
        return slice(tofloat(x.start), tofloat(x.stop), tofloat(x.step))
    if isinstance(x, type) and hasattr(x, '_ldname'):
        return np.dtype(x._ldname).type
    if isinstance(x, LD):
        return np.dtype(x.name)
    return x


def _pyval(v):
    if isinstance(v, S):
        if not v.const:
            raise EngineLimit("symbolic value passed to an unmodelled "
                              "function")
        return int(v.c) if v.i else float(v.c)
    if isinstance(v, SB):
        raise EngineLimit("symbolic boolean passed to an unmodelled function")
    if isinstance(v, SC):
        return complex(_pyval(v.re), _pyval(v.im))
    if isinstance(v, Fraction):
        return float(v)
    return v


def is_const(x):
    if isinstance(x, SArr):
        return all(is_const(v) for v in x.plain.reshape(-1))
    if isinstance(x, S):
        return x.const
    if isinstance(x, SB):
        return False
    if isinstance(x, SC):
        return x.re.const and x.im.const
    if isinstance(x, (tuple, list)):
        return all(is_const(v) for v in x)
    if isinstance(x, dict):
        return all(is_const(v) for v in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return all(is_const(v) for v in x.reshape(-1))
    return True


def emap(f, *args, dt=None):
    objs = [_obj(a) for a in args]
    if all(o.ndim == 0 for o in objs):
        return f(*[o[()] for o in objs])
    r = np.frompyfunc(f, len(objs), 1)(*objs)
    return mk(r, dt)


def _rdt(op, a, b):
    da, db = ldt(a), ldt(b)
    # python / S scalars are weak
    aw, bw = not isinstance(a, np.ndarray), not isinstance(b, np.ndarray)
    if isinstance(a, (list, tuple)):
        aw = False
        da = 'float64'
    if isinstance(b, (list, tuple)):
        bw = False
        db = 'float64'
    if aw != bw:
        w, s = (da, db) if aw else (db, da)
        rk = 'biufc'
        cls = {'b': 0, 'i': 1, 'u': 1, 'f': 2, 'c': 3, 'O': 4}
        if cls[_KIND[w]] <= cls[_KIND[s]]:
            r = s
        else:
            r = promote(w, s) if _KIND[s] != 'f' else 'complex128'
    else:
        r = promote(da, db)
    if op == 'div' and _KIND[r] in 'iub':
        r = 'float64'
    if op in ('add', 'sub', 'mul') and r == 'bool':
        r = 'int64' if op != 'mul' else 'bool'
    return r


def binop(op, a, b):
    if isinstance(b, MSel) and not isinstance(a, MSel):
        return b._op(lambda x, y: binop(op, x, y), a, True)
    if isinstance(a, MSel):
        return a._op(lambda x, y: binop(op, x, y), b)
    if a is None or b is None:
        raise TypeError("unsupported operand type(s)")
    if isinstance(a, str) or isinstance(b, str):
        return NotImplemented
    dt = _rdt(op, a, b)
    if op == 'mul' and dt == 'bool':
        return binlog('and', a, b)
    wrap = None
    if _KIND[dt] == 'u' and dt in ('uint8', 'uint16') and op in (
            'add', 'sub', 'mul'):
        m = 1 << (8 * _SIZE[dt])
        wrap = lambda v: v % m
    if wrap:
        return emap(lambda x, y: wrap(arith(op, x, y)), a, b, dt=dt)
    return emap(lambda x, y: arith(op, x, y), a, b, dt=dt)


def cmpop(op, a, b):
    if isinstance(a, MSel):
        return a._op(lambda x, y: cmpop(op, x, y), b)
    if isinstance(b, MSel):
        return b._op(lambda x, y: cmpop(op, x, y), a, True)
    try:
        return emap(lambda x, y: cmp(op, x, y), a, b, dt='bool')
    except ValueError:
        if op in ('eq', 'ne'):
            raise
        raise


def binlog(op, a, b):
    if ldt(a) == 'bool' or ldt(b) == 'bool':
        f = {'and': lambda x, y: band(x, y), 'or': lambda x, y: bor(x, y),
             'xor': lambda x, y: bnot(_beq(x, y))}[op]
        return emap(f, a, b, dt='bool')
    f = {'and': lambda x, y: lift(x) & lift(y),
         'or': lambda x, y: lift(x) | lift(y),
         'xor': lambda x, y: lift(x) ^ lift(y)}[op]
    return emap(f, a, b)


def _beq(x, y):
    x, y = as_bool(x), as_bool(y)
    return bor(band(x, y), band(bnot(x), bnot(y)))


def cast(x, dt):
    nm = dtname(dt)
    k = _KIND.get(nm, 'O')
    if isinstance(x, str):
        tok = sym.TOKENS.get(x)
        if tok is not None:
            x = tok
        else:
            x = lift(float(x)) if k == 'f' else lift(int(x))
    if k == 'O':
        return mk(_obj(x).copy(), 'object')

    def one(v):
        if isinstance(v, str):
            t = sym.TOKENS.get(v)
            v = t if t is not None else lift(float(v))
        if k == 'b':
            return as_bool(v)
        v = lift(v)
        if isinstance(v, SC):
            return v if k == 'c' else v.re
        if k == 'c':
            return SC.of(v)
        if k == 'f':
            return sym.to_real(v)
        if v.const and isinstance(v.c, float):
            raise EngineLimit("nan/inf cast to integer")
        v = sym.trunc(v)
        if nm in ('uint8', 'uint16', 'uint32'):
            m = 1 << (8 * _SIZE[nm])
            if v.const:
                return lift(v.c % m)
            return v % m
        if nm in ('int8', 'int16'):
            m = 1 << (8 * _SIZE[nm])
            if v.const:
                return lift((v.c + m // 2) % m - m // 2)
            return (v + m // 2) % m - m // 2
        return v
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        o = _obj(x)
        out = np.empty(o.shape, dtype=object)
        fo, fi = out.reshape(-1), o.reshape(-1)
        for i in range(fi.size):
            fo[i] = one(fi[i])
        return mk(out, nm)
    return one(x)


def conv_el(arr, v):
    """convert scalar v for storage in arr according to its logical dtype."""
    k = _KIND.get(arr._ldt, 'O')
    if k == 'O':
        return v
    if k == 'f':
        if isinstance(v, S) and not v.i:
            return v
        if isinstance(v, SC):
            return v.re
        return sym.to_real(v)
    return cast(v, arr._ldt)


def assign(arr, val):
    arr[...] = val


# --------------------------------------------------------------- indexing
def _norm(idx):
    """-> (normalized index, symbolic?)"""
    if isinstance(idx, tuple):
        parts = [_norm(i) for i in idx]
        return tuple(p[0] for p in parts), any(p[1] for p in parts)
    if isinstance(idx, S):
        return operator.index(idx), False
    if isinstance(idx, SB):
        return bool(idx), False
    if isinstance(idx, slice):
        f = lambda v: None if v is None else operator.index(v)
        return slice(f(idx.start), f(idx.stop), f(idx.step)), False
    if isinstance(idx, list):
        idx = mk(_from_list(idx)) if len(idx) else np.empty((0,), int)
    if isinstance(idx, np.ndarray) and (isinstance(idx, SArr)
                                        or idx.dtype == object):
        if not isinstance(idx, SArr):
            idx = mk(idx)
        if idx.ndim == 0 or not isinstance(idx, np.ndarray):
            return _norm(idx[()])
        if idx._ldt == 'bool':
            if all(isinstance(v, (bool, np.bool_))
                   for v in idx.plain.reshape(-1)):
                return np.array(idx.plain.tolist(), dtype=bool).reshape(
                    idx.shape), False
            return idx, True
        if idx.size == 0:
            return np.empty(idx.shape, dtype=int), False
        if _KIND[idx._ldt] == 'f':
            raise IndexError("arrays used as indices must be of integer (or "
                             "boolean) type")
        if is_const(idx):
            return np.array([int(lift(v).c) for v in idx.plain.reshape(-1)],
                            dtype=int).reshape(idx.shape), False
        return idx, True
    return idx, False


def _fork_index(idx):
    """Make a symbolic index concrete by forking."""
    if isinstance(idx, tuple):
        return tuple(_fork_index(i) for i in idx)
    if isinstance(idx, SArr):
        if idx._ldt == 'bool':
            return np.array([bool(v) for v in idx.plain.reshape(-1)],
                            dtype=bool).reshape(idx.shape)
        return np.array([operator.index(lift(v))
                         for v in idx.plain.reshape(-1)],
                        dtype=int).reshape(idx.shape)
    return idx


def _select(cands, e, n):
    """ite chain: value of cands[e] (e symbolic int S, in range)."""
    r = cands[n - 1]
    for p in range(n - 2, -1, -1):
        r = ite(cmp('eq', e, p), cands[p], r)
    return r


def _range_check(e, n):
    """Fix negatives; raise IndexError on a feasible out-of-range."""
    neg = cmp('lt', e, 0)
    e2 = ite(neg, e + n, e)
    ok = band(cmp('ge', e2, 0), cmp('lt', e2, n))
    if not bool(ok):
        raise IndexError("index is out of bounds for axis with size %d" % n)
    return e2


def _same_mask(m, n):
    if m is n:
        return True
    if m.shape != n.shape:
        return False
    for u, v in zip(m.plain.reshape(-1), n.plain.reshape(-1)):
        if isinstance(u, SB) and isinstance(v, SB):
            if not (u is v or u.e.eq(v.e)):
                return False
        elif isinstance(u, SB) or isinstance(v, SB) or bool(u) != bool(v):
            return False
    return True


class MSel:
    """base[mask] with a symbolic mask: kept full-size as long as it only
    meets scalars, selections by the same mask, or an assignment through that
    mask; anything else makes the mask concrete by forking."""
    __array_priority__ = 1000

    def __init__(self, base, mask):
        self.base, self.mask = base, mask
        self.forced = None

    def _force(self):
        if self.forced is None:
            self.forced = getitem(self.base, _fork_index(self.mask))
        return self.forced

    def __sym_array__(self):
        return self._force()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, *[
            i._force() if isinstance(i, MSel) else i for i in inputs], **kw)

    def _op(self, f, o, swap=False):
        if isinstance(o, MSel):
            if not _same_mask(self.mask, o.mask):
                o = o._force()
            else:
                o = o.base
        elif isinstance(o, (np.ndarray, list, tuple)) and np.ndim(o) > 0:
            b = self._force()
            return f(o, b) if swap else f(b, o)
        if not isinstance(o, SArr) or o.shape == self.base.shape:
            return MSel(f(o, self.base) if swap else f(self.base, o),
                        self.mask)
        b = self._force()
        return f(o, b) if swap else f(b, o)

    def __len__(self):
        return len(self._force())

    def __iter__(self):
        return iter(self._force())

    def __getitem__(self, i):
        return self._force()[i]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._force(), n)


for _n, _o in (('add', 'add'), ('sub', 'sub'), ('mul', 'mul'),
               ('truediv', 'div'), ('floordiv', 'fdiv'), ('mod', 'mod'),
               ('pow', 'pow')):
    def _mkop(_o):
        def a(self, o): return self._op(lambda x, y: binop(_o, x, y), o)

        def r(self, o): return self._op(lambda x, y: binop(_o, x, y), o, True)
        return a, r
    _a, _r = _mkop(_o)
    setattr(MSel, '__%s__' % _n, _a)
    setattr(MSel, '__r%s__' % _n, _r)
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(MSel, '__%s__' % _n, (lambda q: lambda self, o: self._op(
        lambda x, y: cmpop(q, x, y), o))(_n))
MSel.__hash__ = None
MSel.__neg__ = lambda self: MSel(-self.base, self.mask)
MSel.__abs__ = lambda self: MSel(abs(self.base), self.mask)


TRACK = None      # engine.track.Track while races are looked for


def getitem(a, idx):
    if isinstance(idx, str):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`) ...")
    nidx, symb = _norm(idx)
    if TRACK is not None:
        TRACK.log(a.plain, None if symb else nidx, False)
    if not symb:
        r = a.plain[nidx]
        if isinstance(r, np.ndarray) and (r.ndim > 0 or nidx == () or
                                          nidx is Ellipsis):
            if r.ndim == 0:
                return r[()]
            v = r.view(SArr)
            v._ldt = a._ldt
            return v
        return r
    # symbolic gather with integer arrays only
    tup = nidx if isinstance(nidx, tuple) else (nidx,)
    sy = [k for k, t in enumerate(tup) if isinstance(t, SArr)]
    if any(tup[k]._ldt == 'bool' for k in sy):
        if len(tup) == 1 and tup[0].shape == a.shape:
            return MSel(a.copy(), tup[0].copy())
        return getitem(a, _fork_index(nidx))
    arrs = [k for k, t in enumerate(tup) if isinstance(t, (np.ndarray, int))]
    if len(sy) == 1 and len(arrs) == 1 and all(
            isinstance(t, (slice, SArr)) for t in tup):
        k = sy[0]
        e = tup[k]
        rest = tuple(t for t in tup)
        rest = rest[:k] + (slice(None),) + rest[k + 1:]
        base = a.plain[rest]
        n = base.shape[k]
        base = np.moveaxis(base, k, 0)
        out = np.empty(e.shape + base.shape[1:], dtype=object)
        for pos in np.ndindex(*e.shape):
            ee = _range_check(lift(e.plain[pos]), n)
            if base.ndim == 1:
                out[pos] = _select(list(base), ee, n)
            else:
                for q in np.ndindex(*base.shape[1:]):
                    out[pos + q] = _select([base[(p,) + q]
                                            for p in range(n)], ee, n)
        ne = e.ndim
        out = np.moveaxis(out, list(range(ne)),
                          list(range(k, k + ne))) if k else out
        return mk(out, a._ldt)
    if len(arrs) == len(tup) and len(tup) == a.ndim:
        bs = np.broadcast_arrays(*[_obj(t) for t in tup])
        out = np.empty(bs[0].shape, dtype=object)
        for pos in np.ndindex(*bs[0].shape):
            es = [lift(b[pos]) for b in bs]
            sub = a.plain
            es = [_range_check(e, n) if not e.const else e
                  for e, n in zip(es, sub.shape)]
            out[pos] = _sel_nd(sub, es)
        return mk(out, a._ldt)
    return getitem(a, _fork_index(nidx))


def _sel_nd(sub, es):
    if not es:
        return sub if not isinstance(sub, np.ndarray) else sub[()]
    e = es[0]
    if e.const:
        return _sel_nd(sub[int(e.c)], es[1:])
    n = sub.shape[0]
    r = _sel_nd(sub[n - 1], es[1:])
    for p in range(n - 2, -1, -1):
        r = ite(cmp('eq', e, p), _sel_nd(sub[p], es[1:]), r)
    return r


def setitem(a, idx, val):
    nidx, symb = _norm(idx)
    if TRACK is not None:
        TRACK.log(a.plain, None if symb else nidx, True)
    if isinstance(val, MSel):
        if symb and isinstance(nidx, SArr) and nidx._ldt == 'bool' and \
                nidx.shape == a.shape and _same_mask(nidx, val.mask):
            ap, bp = a.plain, val.base.plain
            for pos in np.ndindex(*ap.shape):
                c = nidx.plain[pos]
                if c is not False:
                    ap[pos] = ite(c, conv_el(a, bp[pos]), ap[pos])
            return
        val = val._force()
    if symb:
        tup = nidx if isinstance(nidx, tuple) else (nidx,)
        if len(tup) == 1 and tup[0]._ldt == 'bool':
            m = tup[0]
            vo = _obj(val)
            if vo.ndim == 0 or (vo.size == 1):
                v = vo.reshape(-1)[0]
                mo = m.plain
                ap = a.plain
                for pos in np.ndindex(*mo.shape):
                    c = mo[pos]
                    if c is False:
                        continue
                    if mo.ndim == ap.ndim:
                        ap[pos] = ite(c, conv_el(a, v), ap[pos])
                    else:
                        for q in np.ndindex(*ap.shape[mo.ndim:]):
                            ap[pos + q] = ite(c, conv_el(a, v), ap[pos + q])
                return
        return setitem(a, _fork_index(nidx), val)
    ap = a.plain
    vo = _obj(val)
    if vo.ndim == 0:
        tgt = conv_el(a, vo[()])
        if isinstance(nidx, np.ndarray) or isinstance(nidx, tuple) or \
                isinstance(nidx, (slice, int)) or nidx is Ellipsis:
            cur = ap[nidx]
            if isinstance(cur, np.ndarray):
                w = np.empty(cur.shape, dtype=object)
                w.fill(tgt)
                ap[nidx] = w
            else:
                ap[nidx] = tgt
        else:
            ap[nidx] = tgt
        return
    out = np.empty(vo.shape, dtype=object)
    for pos in np.ndindex(*vo.shape):
        out[pos] = conv_el(a, vo[pos])
    if vo.size == 1 and vo.ndim:
        cur = ap[nidx]
        if not isinstance(cur, np.ndarray) or cur.ndim == 0:
            if vo.ndim:
                ap[nidx] = out.reshape(-1)[0]
                return
    ap[nidx] = out


# ------------------------------------------------------- ufunc dispatching
def ufunc_dispatch(ufunc, method, *inputs, **kw):
    out = kw.pop('out', None)
    where_ = kw.pop('where', True)
    name = ufunc.__name__
    if method == '__call__':
        f = OVERRIDE.get(name)
        if f is None:
            f = _ufunc_by_name(name)
        kw.pop('dtype', None)
        r = f(*inputs)
        if where_ is not True:
            base = out[0] if out is not None else r
            r = where(where_, r, base)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SArr):
                assign(o, r)
                return o
            raise EngineLimit("ufunc out= into a plain array")
        return r
    if method == 'reduce':
        red = {'add': sum_, 'multiply': prod, 'maximum': max_,
               'minimum': min_, 'logical_and': all_,
               'logical_or': any_}.get(name)
        if red:
            ax = kw.get('axis', 0)
            return red(inputs[0], axis=ax, keepdims=kw.get('keepdims',
                                                           False))
    if method == 'outer':
        return outer_op(name, *inputs)
    if method == 'accumulate' and name == 'add':
        return cumsum(inputs[0], axis=kw.get('axis', 0))
    raise EngineLimit("ufunc %s.%s" % (name, method))


def function_dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if 'fft' in mod and name in FFT.__dict__:
        return getattr(FFT, name)(*args, **kwargs)
    f = OVERRIDE.get(name)
    if f is not None:
        return f(*args, **kwargs)
    return generic_call(func, args, kwargs)


def _plainify(x):
    if isinstance(x, SArr):
        return x.plain
    if isinstance(x, S):
        if x.const:
            return int(x.c) if x.i else float(x.c)
        return operator.index(x) if x.i else x
    if type(x) is tuple:
        return tuple(_plainify(v) for v in x)
    if isinstance(x, list):
        return [_plainify(v) for v in x]
    if isinstance(x, type) and hasattr(x, '_ldname'):
        return object
    if isinstance(x, LD):
        return object
    return x


def generic_call(func, args, kwargs):
    """Real numpy function: constant data -> exact floats are fine, else run
    the (structural) function on object arrays."""
    if isinstance(func, np.ufunc):
        return ufunc_dispatch(func, '__call__', *args, **kwargs)
    dts = [a._ldt for a in _iter_arr(args)]
    if _iter_sym(args) or _iter_sym(kwargs.values()):
        a2 = tuple(_plainify(a) for a in args)
        k2 = {k: _plainify(v) for k, v in kwargs.items() if k != 'dtype'}
    else:
        a2 = tuple(tofloat(a) for a in args)
        k2 = {k: tofloat(v) for k, v in kwargs.items()}
    r = func(*a2, **k2)
    dt = promote(*dts) if dts else None

    def w(v):
        if isinstance(v, np.ndarray):
            if v.dtype == object:
                q = mk(v)
                if dt is not None and isinstance(q, SArr) and (
                        _KIND[q._ldt] == _KIND.get(dt) or
                        (_KIND[q._ldt], _KIND.get(dt)) == ('i', 'u')):
                    q._ldt = dt
                return q
            return tosym(v)
        if isinstance(v, np.generic):
            return tosym(v)
        if type(v) is tuple:
            return tuple(w(t) for t in v)
        if isinstance(v, list):
            return [w(t) for t in v]
        return v
    return w(r)


def _iter_arr(x):
    for a in x:
        if isinstance(a, SArr):
            yield a
        elif isinstance(a, (list, tuple)):
            yield from _iter_arr(a)


def _iter_sym(x):
    """Any symbolic content (or SArr needing exactness)?"""
    for a in x:
        if isinstance(a, (SArr, SB, SC)):
            return True
        if isinstance(a, S) and not a.const:
            return True
        if isinstance(a, np.ndarray) and a.dtype == object:
            return True
        if isinstance(a, (list, tuple)) and _iter_sym(a):
            return True
    return False


def _unary(name):
    def f(x, out=None, **k):
        r = emap(lambda v: un(name, v), x)
        if out is not None:
            assign(out, r)
            return out
        return r
    return f


def _ufunc_by_name(name):
    raise EngineLimit("numpy ufunc '%s' is not modelled" % name)


# -------------------------------------------------------- numpy functions
OVERRIDE = {}


def ov(*names):
    def d(f):
        for n in names or (f.__name__,):
            OVERRIDE[n] = f
        return f
    return d


for _n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'arctan', 'arcsin',
           'arccos', 'sinh', 'cosh', 'tanh', 'arcsinh', 'log2', 'log10',
           'log1p', 'expm1'):
    OVERRIDE[_n] = _unary(_n)


def _bin(op):
    def f(a, b, out=None, where=True, **k):
        r = emap(lambda x, y: arith(op, x, y), a, b, dt=_rdt(op, a, b))
        if where is not True:
            base = out
            if base is None:
                raise EngineLimit("ufunc where= without out=")
            r = OVERRIDE['where'](where, r, base)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            assign(out, r)
            return out
        return r
    return f


for _n, _o in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'),
               ('divide', 'div'), ('true_divide', 'div'),
               ('floor_divide', 'fdiv'), ('mod', 'mod'),
               ('remainder', 'mod'), ('power', 'pow'),
               ('float_power', 'pow')):
    OVERRIDE[_n] = _bin(_o)

for _n, _o in (('less', 'lt'), ('less_equal', 'le'), ('greater', 'gt'),
               ('greater_equal', 'ge'), ('equal', 'eq'),
               ('not_equal', 'ne')):
    OVERRIDE[_n] = functools.partial(cmpop, _o)


@ov('logical_and', 'bitwise_and')
def logical_and(a, b, **k):
    return emap(band, a, b, dt='bool')


@ov('logical_or', 'bitwise_or')
def logical_or(a, b, **k):
    return emap(bor, a, b, dt='bool')


@ov('logical_not')
def logical_not(a, **k):
    return emap(bnot, a, dt='bool')


@ov('invert', 'bitwise_not')
def invert(a):
    return ~asarray(a) if isinstance(a, (np.ndarray, list)) else bnot(a)


@ov('logical_xor')
def logical_xor(a, b, **k):
    return emap(lambda x, y: bnot(_beq(x, y)), a, b, dt='bool')


@ov('negative')
def negative(a, **k):
    return emap(lambda v: -lift(v), a)


@ov('positive')
def positive(a):
    return emap(lambda v: lift(v), a)


@ov('abs', 'absolute', 'fabs')
def absolute(a, **k):
    return emap(lambda v: abs(lift(v)), a)


@ov('square')
def square(a, **k):
    return emap(lambda v: lift(v) * lift(v), a)


@ov('reciprocal')
def reciprocal(a):
    return emap(lambda v: 1.0 / lift(v), a)


@ov('sign')
def sign(a, **k):
    def f(v):
        v = lift(v)
        one, mone, z = ((1, -1, 0) if v.i else (1.0, -1.0, 0.0))
        return lift(ite(cmp('gt', v, 0), one, ite(cmp('lt', v, 0), mone, z)))
    return emap(f, a)


@ov('floor')
def floor_(a, **k):
    return emap(lambda v: sym.to_real(sym.floor(v)), a)


@ov('ceil')
def ceil_(a, **k):
    return emap(lambda v: sym.to_real(sym.ceil(v)), a)


@ov('trunc', 'fix')
def trunc_(a, **k):
    return emap(lambda v: sym.to_real(sym.trunc(v)), a)


@ov('rint')
def rint_(a, **k):
    return emap(lambda v: sym.to_real(sym.rint(v)), a)


@ov('round', 'around', 'round_')
def around(a, decimals=0, **k):
    d = int(decimals)
    if d == 0:
        return emap(lambda v: (lift(v) if lift(v).i else
                               sym.to_real(sym.rint(v))), a)
    return emap(lambda v: sym.around(v, d), a)


@ov('maximum', 'fmax')
def maximum(a, b, **k):
    return emap(smax, a, b)


@ov('minimum', 'fmin')
def minimum(a, b, **k):
    return emap(smin, a, b)


@ov('clip')
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a if not isinstance(a, (list, tuple)) else asarray(a)
    dt = ldt(r)
    isarr = isinstance(r, np.ndarray)

    def strip(v):
        return v
    if lo is not None:
        r = emap(lambda v, m: _cl(smax, v, m), r, lo)
    if hi is not None:
        r = emap(lambda v, m: _cl(smin, v, m), r, hi)
    if lo is None and hi is None:
        r = emap(lift, r)
    if not isarr and not isinstance(r, np.ndarray):
        r = lift(r)
    if isarr and isinstance(r, SArr) and (
            _KIND[r._ldt] == _KIND[dt] or
            (_KIND[r._ldt], _KIND[dt]) == ('i', 'u')):
        r._ldt = dt
    if out is not None:
        assign(out, r)
        return out
    return r


def _cl(f, v, m):
    v, m = lift(v), lift(m)
    if m.const and isinstance(m.c, float):
        return v
    r = f(v, m)
    if not (v.i and m.i) and r.i:
        r = sym.to_real(r)
    return r


@ov('real')
def real(a):
    return emap(lambda v: SC.of(v).re if not isinstance(v, S) else v, a)


@ov('imag')
def imag(a):
    return emap(lambda v: SC.of(lift(v)).im, a)


@ov('conjugate', 'conj')
def conjugate(a, **k):
    return emap(lambda v: lift(v).conjugate(), a)


@ov('angle')
def angle(a):
    return emap(lambda v: arctan2_(SC.of(lift(v)).im, SC.of(lift(v)).re), a)


def _ratio(y, x):
    """y / x if that is a number whatever the symbols are."""
    if x.const:
        return None
    if y.const:
        return 0.0 if y.c == 0 else None
    (dy, cy), (dx, cx) = sym._lin(y), sym._lin(x)
    if cy or cx or set(dy) != set(dx):
        return None
    q = {Fraction(dy[k][1]) / Fraction(dx[k][1]) for k in dx}
    lo, hi = min(q), max(q)
    if hi - lo > abs(hi) * Fraction(1, 10 ** 9):
        return None
    return float(lo)


def arctan2_(y, x):
    y, x = lift(y), lift(x)
    if y.const and x.const:
        return lift(math.atan2(float(y.c), float(x.c)))
    q = _ratio(y, x)
    if q is not None:                   # both are multiples of one term
        if bool(cmp('gt', x, 0)):
            return lift(math.atan(q))
        if bool(cmp('lt', x, 0)):
            return lift(math.atan2(-q, -1.0))
    r = uf('arctan2', y, x)
    ENG.add(z3.And(r.e >= -3.2, r.e <= 3.2))
    return r


@ov('arctan2')
def arctan2(y, x, **k):
    return emap(arctan2_, y, x)


@ov('hypot')
def hypot(a, b):
    return emap(lambda x, y: un('sqrt', lift(x) * x + lift(y) * y), a, b)


_PI = Fraction(math.pi)


@ov('deg2rad', 'radians')
def deg2rad(a, **k):
    return emap(lambda v: lift(v) * S(_PI / 180, None, False), a)


@ov('rad2deg', 'degrees')
def rad2deg(a, **k):
    return emap(lambda v: lift(v) * S(180 / _PI, None, False), a)


@ov('isnan')
def isnan(a, **k):
    def f(v):
        v = lift(v)
        return bool(isinstance(v, S) and v.const and isinstance(v.c, float)
                    and v.c != v.c)
    return emap(f, a, dt='bool')


@ov('isinf')
def isinf(a, **k):
    def f(v):
        v = lift(v)
        return bool(isinstance(v, S) and v.const and isinstance(v.c, float)
                    and v.c == v.c)
    return emap(f, a, dt='bool')


@ov('isfinite')
def isfinite(a, **k):
    def f(v):
        v = lift(v)
        return not (isinstance(v, S) and v.const and isinstance(v.c, float))
    return emap(f, a, dt='bool')


@ov('nan_to_num')
def nan_to_num(a, nan=0.0, **k):
    return where(isnan(a), nan, a)


@ov('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return cmpop('le', absolute(binop('sub', a, b)),
                 binop('add', atol, binop('mul', rtol, absolute(b))))


@ov('allclose')
def allclose(a, b, **k):
    return all_(isclose(a, b, **k))


@ov('array_equal')
def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if shape(a) != shape(b):
        return False
    return all_(cmpop('eq', a, b))


@ov('where')
def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    return emap(ite0, c, a, b, dt=_rdt('add', a, b) if not (
        ldt(a) == 'bool' and ldt(b) == 'bool') else 'bool')


def ite0(c, a, b):
    r = ite(c, a if isinstance(a, (bool, SB)) else lift(a),
            b if isinstance(b, (bool, SB)) else lift(b))
    return r


@ov('select')
def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


@ov('nonzero')
def nonzero(a):
    o = _obj(a)
    m = np.array([bool(as_bool(v)) for v in o.reshape(-1)],
                 dtype=bool).reshape(o.shape)
    return tuple(tosym(t) for t in np.nonzero(m))


@ov('flatnonzero')
def flatnonzero(a):
    return nonzero(asarray(a).ravel())[0]


@ov('argwhere')
def argwhere(a):
    return transpose(asarray(list(nonzero(a))))


@ov('count_nonzero')
def count_nonzero(a, axis=None):
    return sum_(cmpop('ne', a, 0), axis=axis)


@ov('copyto')
def copyto(dst, src, where=True, **k):
    if where is True:
        assign(dst, src)
    else:
        assign(dst, OVERRIDE['where'](where, src, dst))


@ov('putmask')
def putmask(a, m, v):
    assign(a, where(m, v, a))


@ov('place')
def place(a, m, v):
    putmask(a, m, v[0] if isinstance(v, (list, tuple)) else v)


# ---- creation
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(v) for v in s)
    if isinstance(s, np.ndarray) and s.ndim:
        return tuple(operator.index(v) for v in s)
    return (operator.index(s),)


def _full(shape_, v, dt):
    o = np.empty(_shape(shape_), dtype=object)
    nm = dtname(dt)
    k = _KIND.get(nm, 'O')
    if k != 'O':
        v = cast(v, nm)
    o.fill(v)
    if o.ndim == 0:
        return v
    return mk(o, nm)


@ov('zeros')
def zeros(shape, dtype=None, order='C', **k):
    return _full(shape, 0, dtype)


@ov('ones')
def ones(shape, dtype=None, order='C', **k):
    return _full(shape, 1, dtype)


@ov('empty')
def empty(shape, dtype=None, order='C', **k):
    o = np.empty(_shape(shape), dtype=object)
    fl = o.reshape(-1)
    for i in range(fl.size):
        fl[i] = S(None, ENG.new_real('uninit'), False)
    r = mk(o, 'float64') if o.ndim else fl[0]
    return cast(r, dtype) if dtname(dtype) != 'object' else mk(o, 'object')


@ov('full')
def full(shape, fill_value, dtype=None, **k):
    if isinstance(fill_value, (np.ndarray, list, tuple)):
        r = zeros(shape, dtype)
        assign(r, fill_value)
        return r
    return _full(shape, fill_value, dtype or ldt(fill_value))


def _like(a, dtype, shape):
    a = asarray(a)
    return (shape if shape is not None else np.shape(_obj(a)),
            dtype if dtype is not None else ldt(a))


@ov('zeros_like')
def zeros_like(a, dtype=None, shape=None, **k):
    s, d = _like(a, dtype, shape)
    return zeros(s, d)


@ov('ones_like')
def ones_like(a, dtype=None, shape=None, **k):
    s, d = _like(a, dtype, shape)
    return ones(s, d)


@ov('empty_like')
def empty_like(a, dtype=None, shape=None, **k):
    s, d = _like(a, dtype, shape)
    return empty(s, d)


@ov('full_like')
def full_like(a, v, dtype=None, shape=None, **k):
    s, d = _like(a, dtype, shape)
    return full(s, v, d)


def _numel(v):
    if isinstance(v, (S, SB, SC, bool, str)) or v is None:
        return v
    l = lift(v)
    return v if l is None else l


@ov('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
    'atleast_1d_', 'require')
def asarray(a, dtype=None, **k):
    if isinstance(a, SArr):
        if dtype is not None and dtname(dtype) != a._ldt:
            return cast(a, dtype)
        return a
    if hasattr(a, '__sym_array__'):
        r = a.__sym_array__()
        return asarray(r, dtype)
    if isinstance(a, (types.GeneratorType, map, filter, set)):
        raise EngineLimit("asarray of a generator")
    if isinstance(a, range):
        a = list(a)
    if isinstance(a, str) or a is None or isinstance(a, dict):
        return np.asarray(a)
    if isinstance(a, (list, tuple)) and len(a) and isinstance(a[0], str):
        if dtype is not None and _KIND[dtname(dtype)] in 'fiu':
            return cast([v for v in a], dtype)
        return np.asarray(a)
    o = _obj(a)
    if o is a or not isinstance(a, np.ndarray):
        o = np.frompyfunc(_numel, 1, 1)(o) if o.size else o
        if not isinstance(o, np.ndarray):
            oo = np.empty((), dtype=object)
            oo[()] = o
            o = oo
    if o.ndim == 0:
        v = o[()]
        if dtype is not None:
            v = cast(v, dtype)
        return v
    nm = a.dtype.name if isinstance(a, np.ndarray) and a.dtype != object \
        else None
    r = mk(o, nm)
    if isinstance(a, np.ndarray) and a.dtype != object:
        r = tosym(a)
    elif isinstance(a, (list, tuple)):
        ds = {x._ldt for x in a if isinstance(x, SArr)}
        if len(ds) == 1 and len(a) == sum(isinstance(x, SArr) for x in a):
            r._ldt = ds.pop()
        if _KIND.get(r._ldt) == 'f':
            r = cast(r, r._ldt)
    if dtype is not None:
        r = cast(r, dtype)
    return r


@ov('array', 'copy')
def array(a, dtype=None, copy=True, ndmin=0, **k):
    r = asarray(a, dtype)
    if isinstance(r, SArr):
        r = r.copy()
        while r.ndim < ndmin:
            r = r[None]
    return r


@ov('atleast_1d')
def atleast_1d(a):
    r = asarray(a)
    return r if isinstance(r, np.ndarray) else asarray([r])


@ov('arange')
def arange(*a, dtype=None, **k):
    a = list(a)
    start, stop, step = lift(0), None, lift(1)
    if 'start' in k:
        start = lift(k['start'])
    if 'stop' in k:
        stop = lift(k['stop'])
    if 'step' in k:
        step = lift(k['step'])
    if len(a) == 1:
        stop = lift(a[0])
    elif len(a) >= 2:
        start, stop = lift(a[0]), lift(a[1])
        if len(a) >= 3:
            step = lift(a[2])
    n = sym.ceil((stop - start) / step)
    n = max(0, operator.index(n))
    isint = start.i and step.i and stop.i
    out = np.empty(n, dtype=object)
    for i in range(n):
        v = start + step * i
        out[i] = v if isint else sym.to_real(v)
    r = mk(out, 'int64' if isint else 'float64')
    return cast(r, dtype) if dtype is not None else r


@ov('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             **k):
    num = operator.index(num)
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        raise EngineLimit("array linspace")
    start, stop = sym.to_real(start), sym.to_real(stop)
    div = num - 1 if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        if div <= 0:
            out[i] = start
        else:
            out[i] = start + (stop - start) * S(Fraction(i, div), None, False)
    r = mk(out, 'float64')
    if dtype is not None:
        r = cast(r, dtype)
    if retstep:
        return r, (stop - start) / max(div, 1)
    return r


@ov('eye', 'identity')
def eye(n, m=None, k=0, dtype=None, **kw):
    n = operator.index(n)
    m = n if m is None else operator.index(m)
    r = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1.0
    return r


@ov('meshgrid')
def meshgrid(*xs, indexing='xy', sparse=False, **k):
    xs = [asarray(x) for x in xs]
    r = np.meshgrid(*[x.plain for x in xs], indexing=indexing, sparse=sparse)
    return tuple(mk(np.array(v), x._ldt) for v, x in zip(r, xs))


class _Grid:
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        keys = key if isinstance(key, tuple) else (key,)
        axes = []
        for s in keys:
            st = s.start if s.start is not None else 0
            if isinstance(s.step, complex):
                axes.append(linspace(st, s.stop, int(abs(s.step))))
            else:
                axes.append(arange(st, s.stop,
                                   s.step if s.step is not None else 1))
        if len(axes) == 1 and not isinstance(key, tuple):
            return axes[0]
        n = len(axes)
        res = []
        for k, ax in enumerate(axes):
            sh = [1] * n
            sh[k] = len(ax)
            res.append(ax.reshape(sh))
        if self.sparse:
            return tuple(res)
        full_ = tuple(len(a) for a in axes)
        return asarray([mk(np.broadcast_to(r.plain, full_).copy(), r._ldt)
                        for r in res])


# ---- structure
@ov('shape')
def shape(a):
    return np.shape(_obj(a))


@ov('ndim')
def ndim(a):
    return _obj(a).ndim


@ov('size')
def size(a, axis=None):
    o = _obj(a)
    return o.size if axis is None else o.shape[axis]


@ov('transpose')
def transpose(a, axes=None):
    a = asarray(a)
    return a.transpose(*([] if axes is None else list(axes)))


@ov('reshape')
def reshape(a, shape=None, newshape=None, **k):
    s = shape if shape is not None else newshape
    if not isinstance(s, (tuple, list, np.ndarray)):
        s = (s,)
    return asarray(a).reshape(*s)


@ov('ravel')
def ravel(a, **k):
    return asarray(a).ravel()


@ov('expand_dims')
def expand_dims(a, axis):
    a = asarray(a)
    return mk(np.expand_dims(a.plain, tuple(axis) if isinstance(
        axis, (tuple, list)) else int(axis)), a._ldt)


@ov('broadcast_to')
def broadcast_to(a, shape, **k):
    a = asarray(a)
    return mk(np.broadcast_to(_obj(a), _shape(shape)).copy(), ldt(a))


def _join(fn):
    def f(arrs, axis=None, **k):
        arrs = [asarray(a) for a in arrs]
        flat = not isinstance(arrs[0], np.ndarray)
        arrs = [a if isinstance(a, np.ndarray) else asarray([a])
                for a in arrs]
        if fn is np.stack and flat:
            kw = {} if axis is None else {'axis': int(axis)}
            r = fn([a.plain.reshape(()) for a in arrs], **kw)
            return mk(r, promote(*[a._ldt for a in arrs]))
        kw = {} if axis is None else {'axis': int(axis)}
        r = fn([a.plain for a in arrs], **kw)
        return mk(r, promote(*[a._ldt for a in arrs]))
    return f


OVERRIDE['concatenate'] = _join(np.concatenate)
OVERRIDE['hstack'] = _join(np.hstack)
OVERRIDE['vstack'] = _join(np.vstack)
OVERRIDE['dstack'] = _join(np.dstack)
OVERRIDE['column_stack'] = _join(np.column_stack)
OVERRIDE['stack'] = _join(np.stack)


@ov('append')
def append(a, b, axis=None):
    if axis is None:
        a, b = asarray(a), asarray(b)
        a = a.ravel() if isinstance(a, np.ndarray) else asarray([a])
        b = b.ravel() if isinstance(b, np.ndarray) else asarray([b])
        axis = 0
    return OVERRIDE['concatenate']([a, b], axis=axis)


@ov('pad')
def pad(a, pad_width, mode='constant', **kw):
    a = asarray(a)
    nd = a.ndim
    pw = pad_width
    if isinstance(pw, np.ndarray):
        pw = pw.tolist()
    if not isinstance(pw, (tuple, list)):
        pw = ((pw, pw),) * nd
    else:
        pw = list(pw)
        if not any(isinstance(p, (tuple, list)) for p in pw):
            if len(pw) == 1:
                pw = ((pw[0], pw[0]),) * nd
            elif len(pw) == 2:
                pw = (tuple(pw),) * nd
            else:
                raise ValueError("operands could not be broadcast together")
        else:
            pw = [tuple(p) * 2 if len(p) == 1 else tuple(p) for p in pw]
            if len(pw) == 1:
                pw = pw * nd
    if len(pw) != nd:
        raise ValueError("operands could not be broadcast together")
    pw = [(operator.index(p), operator.index(q)) for p, q in pw]
    if any(p < 0 or q < 0 for p, q in pw):
        raise ValueError("index can't contain negative values")
    if callable(mode):
        raise EngineLimit("callable pad mode")
    o = a.plain
    cv = kw.get('constant_values', 0)
    for ax, (p, q) in enumerate(pw):
        if p == 0 and q == 0:
            continue
        n = o.shape[ax]
        if mode == 'constant':
            c = cv
            if isinstance(c, (tuple, list)):
                raise EngineLimit("per-axis pad constants")
            sh = list(o.shape)

            def blk(m):
                sh[ax] = m
                b = np.empty(sh, dtype=object)
                b.fill(conv_el(a, c))
                return b
            o = np.concatenate([blk(p), o, blk(q)], axis=ax)
            continue
        if mode in ('edge', 'reflect', 'symmetric', 'wrap'):
            if n == 0:
                raise ValueError("can't extend empty axis")
            mm = {'edge': 'edge', 'reflect': 'reflect',
                  'symmetric': 'symmetric', 'wrap': 'wrap'}[mode]
            ind = np.pad(np.arange(n), (p, q), mode=mm)
            o = np.take(o, ind, axis=ax)
            continue
        if mode in ('mean', 'minimum', 'maximum', 'median'):
            f = {'mean': mean, 'minimum': min_, 'maximum': max_,
                 'median': median}[mode]
            v = _obj(f(mk(o), axis=ax, keepdims=True))
            o = np.concatenate([np.repeat(v, p, ax), o,
                                np.repeat(v, q, ax)], axis=ax)
            continue
        if mode == 'linear_ramp':
            ev = lift(kw.get('end_values', 0))
            first = np.take(o, [0], axis=ax)
            last = np.take(o, [n - 1], axis=ax)

            def ramp(edge, m, left):
                ls = []
                for i in range(m):
                    t = Fraction(i, m) if left else Fraction(m - 1 - i, m)
                    ls.append(_obj(emap(lambda v: ev + (lift(v) - ev) * S(
                        t, None, False), edge)).reshape(edge.shape))
                return ls
            o = np.concatenate(ramp(first, p, True) + [o]
                               + ramp(last, q, False), axis=ax)
            continue
        raise EngineLimit("np.pad mode %r" % (mode,))
    return mk(np.array(o), a._ldt)


@ov('diff')
def diff(a, n=1, axis=-1, prepend=None, append=None):
    a = asarray(a)
    o = a.plain
    ax = int(axis) % o.ndim
    parts = []
    for v, first in ((prepend, True), (append, False)):
        if v is not None:
            vv = _obj(asarray(v))
            if vv.ndim == 0:
                sh = list(o.shape)
                sh[ax] = 1
                b = np.empty(sh, dtype=object)
                b.fill(lift(vv[()]))
                vv = b
            parts.append((vv, first))
    for vv, first in parts:
        o = np.concatenate([vv, o] if first else [o, vv], axis=ax)
    r = mk(o, a._ldt)
    for _ in range(int(n)):
        m = r.shape[ax]
        hi = [slice(None)] * r.ndim
        lo = [slice(None)] * r.ndim
        hi[ax], lo[ax] = slice(1, None), slice(0, m - 1)
        r = r[tuple(hi)] - r[tuple(lo)]
    return r


@ov('array_split')
def array_split(a, n, axis=0):
    a = asarray(a)
    if not isinstance(n, (list, tuple, np.ndarray)):
        n = operator.index(n)
    else:
        n = [operator.index(v) for v in n]
    return [mk(v, a._ldt) for v in np.array_split(a.plain, n, int(axis))]


@ov('split')
def split(a, n, axis=0):
    a = asarray(a)
    n = operator.index(n) if not isinstance(n, (list, tuple)) else [
        operator.index(v) for v in n]
    return [mk(v, a._ldt) for v in np.split(a.plain, n, int(axis))]


@ov('unravel_index')
def unravel_index(i, shape, **k):
    sh = _shape(shape)
    if isinstance(i, np.ndarray):
        i = tofloat(i)
        return tuple(tosym(v) for v in np.unravel_index(i, sh))
    i = lift(i)
    res = []
    for n in reversed(sh):
        res.append(i % n)
        i = i // n
    return tuple(reversed(res))


@ov('indices')
def indices(dims, **k):
    return tosym(np.indices(_shape(dims)))


# ---- reductions
def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % nd for a in axis)
    ax = int(axis)
    if ax >= nd or ax < -nd:
        raise np.exceptions.AxisError(ax, nd)
    return (ax % nd,)


def reduce_(f, a, axis=None, keepdims=False, dt=None):
    a = asarray(a)
    if not isinstance(a, np.ndarray):
        return f([a])
    axs = _axes(axis, a.ndim)
    rest = [k for k in range(a.ndim) if k not in axs]
    o = a.plain.transpose(rest + list(axs))
    rs = tuple(a.shape[k] for k in rest)
    o = o.reshape((int(np.prod(rs, dtype=int)), -1)) if a.size else \
        o.reshape((int(np.prod(rs, dtype=int)), 0))
    out = np.empty(o.shape[0], dtype=object)
    for k in range(o.shape[0]):
        out[k] = f(list(o[k]))
    out = out.reshape(rs)
    if keepdims:
        out = out.reshape([1 if k in axs else a.shape[k]
                           for k in range(a.ndim)])
    if out.ndim == 0:
        return out[()]
    return mk(out, dt)


def _fsum(vs):
    if not vs:
        return lift(0.0)
    r = lift(vs[0])
    for v in vs[1:]:
        r = r + v
    return r


@ov('sum', 'nansum')
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, types.GeneratorType):
        a = list(a)
    d = ldt(a) if not isinstance(a, (list, tuple)) else None
    rd = None if d is None else (d if _KIND[d] in 'fc' else 'int64')
    return reduce_(_fsum, a, axis, keepdims, rd)


@ov('prod')
def prod(a, axis=None, keepdims=False, **k):
    return reduce_(lambda vs: functools.reduce(lambda x, y: lift(x) * y, vs,
                                               lift(1)), a, axis, keepdims)


@ov('mean', 'nanmean')
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    def f(vs):
        if not vs:
            return S(math.nan, None, False)
        return _fsum(vs) * S(Fraction(1, len(vs)), None, False)
    d = ldt(a) if isinstance(a, np.ndarray) else 'float64'
    return reduce_(f, a, axis, keepdims, d if _KIND[d] in 'fc' else 'float64')


@ov('average')
def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    if axis is None:
        return sum_(binop('mul', a, weights)) / sum_(weights)
    w = asarray(weights)
    if w.ndim == 1 and asarray(a).ndim > 1:
        sh = [1] * asarray(a).ndim
        sh[axis] = -1
        w = w.reshape(*sh)
    return sum_(binop('mul', a, w), axis=axis) / sum_(weights)


def _var(vs, ddof=0):
    m = _fsum(vs) * S(Fraction(1, len(vs)), None, False)
    return _fsum([(lift(v) - m) * (lift(v) - m) for v in vs]) * S(
        Fraction(1, len(vs) - ddof), None, False)


@ov('var')
def var(a, axis=None, ddof=0, keepdims=False, **k):
    return reduce_(lambda vs: _var(vs, int(ddof)), a, axis, keepdims)


@ov('std')
def std(a, axis=None, ddof=0, keepdims=False, **k):
    return reduce_(lambda vs: un('sqrt', _var(vs, int(ddof))), a, axis,
                   keepdims)


@ov('max', 'amax', 'nanmax')
def max_(a, axis=None, out=None, keepdims=False, **k):
    def f(vs):
        if not vs:
            raise ValueError("zero-size array to reduction operation maximum "
                             "which has no identity")
        return functools.reduce(smax, vs, lift(vs[0]))
    return reduce_(f, a, axis, keepdims,
                   ldt(a) if isinstance(a, np.ndarray) else None)


@ov('min', 'amin', 'nanmin')
def min_(a, axis=None, out=None, keepdims=False, **k):
    def f(vs):
        if not vs:
            raise ValueError("zero-size array to reduction operation minimum "
                             "which has no identity")
        return functools.reduce(smin, vs, lift(vs[0]))
    return reduce_(f, a, axis, keepdims,
                   ldt(a) if isinstance(a, np.ndarray) else None)


@ov('ptp')
def ptp(a, axis=None, **k):
    return binop('sub', max_(a, axis), min_(a, axis))


@ov('any')
def any_(a, axis=None, keepdims=False, **k):
    return reduce_(lambda vs: bor(*vs), a, axis, keepdims, 'bool')


@ov('all')
def all_(a, axis=None, keepdims=False, **k):
    return reduce_(lambda vs: band(*vs), a, axis, keepdims, 'bool')


def _argext(vs, strict):
    """first index of the extreme value, branch-free."""
    best, pos = lift(vs[0]), lift(0)
    for k in range(1, len(vs)):
        c = cmp(strict, vs[k], best)
        best = ite(c, lift(vs[k]), best)
        pos = ite(c, lift(k), pos)
    return pos


@ov('argmax')
def argmax(a, axis=None, **k):
    def f(vs):
        if not vs:
            raise ValueError("attempt to get argmax of an empty sequence")
        return _argext(vs, 'gt')
    return reduce_(f, a, axis, False, 'int64')


@ov('argmin')
def argmin(a, axis=None, **k):
    def f(vs):
        if not vs:
            raise ValueError("attempt to get argmin of an empty sequence")
        return _argext(vs, 'lt')
    return reduce_(f, a, axis, False, 'int64')


def _sort_known(vs):
    """Insertion sort if the path decides every comparison, else None."""
    out = []
    for v in vs:
        i = len(out)
        while i > 0:
            c = v > out[i - 1]
            if c is True:
                break
            if c is not False:
                return None
            i -= 1
        out.insert(i, v)
    return out


def _sorted(vs):
    """branch-free insertion sort (min/max network)."""
    vs = [lift(v) for v in vs]
    out = _sort_known(vs)
    if out is not None:
        return out
    out = []
    for v in vs:
        new = []
        for w in out:
            new.append(smin(w, v))
            v = smax(w, v)
        new.append(v)
        out = new
    return out


def _along(f, a, axis, dt=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    ax = int(axis) % a.ndim
    o = np.moveaxis(a.plain, ax, -1)
    out = None
    for pos in np.ndindex(*o.shape[:-1]):
        r = f(list(o[pos]))
        if out is None:
            out = np.empty(o.shape[:-1] + (len(r),), dtype=object)
        for k, v in enumerate(r):
            out[pos + (k,)] = v
    if out is None:
        out = np.empty(o.shape, dtype=object)
    return mk(np.array(np.moveaxis(out, -1, ax)), dt or a._ldt)


@ov('sort')
def sort(a, axis=-1, **k):
    return _along(_sorted, a, axis)


def _argsorted(vs):
    n = len(vs)
    vs = [lift(v) for v in vs]
    if all(v.const for v in vs):
        return [lift(i) for i in sorted(range(n), key=lambda i: (vs[i].c,
                                                                 i))]
    rank = []
    for i in range(n):
        r = lift(0)
        for j in range(n):
            if j == i:
                continue
            c = cmp('le' if j < i else 'lt', vs[j], vs[i])
            r = r + ite(c, lift(1), lift(0))
        rank.append(r)
    out = []
    for k in range(n):
        e = lift(n - 1)
        for i in range(n - 2, -1, -1):
            e = ite(cmp('eq', rank[i], k), lift(i), e)
        out.append(e)
    return out


@ov('argsort')
def argsort(a, axis=-1, **k):
    return _along(_argsorted, a, axis, 'int64')


def _median(vs):
    s = _sorted(vs)
    n = len(s)
    if n == 0:
        return S(math.nan, None, False)
    if n % 2:
        return sym.to_real(s[n // 2])
    return (s[n // 2 - 1] + s[n // 2]) * 0.5


@ov('median', 'nanmedian')
def median(a, axis=None, keepdims=False, **k):
    return reduce_(_median, a, axis, keepdims)


@ov('percentile')
def percentile(a, q, axis=None, keepdims=False, **k):
    if isinstance(q, (list, tuple, np.ndarray)):
        return asarray([percentile(a, v, axis, keepdims) for v in q])
    q = lift(q)
    if not q.const:
        raise EngineLimit("symbolic percentile")
    qq = Fraction(q.c) / 100

    def f(vs):
        s = _sorted(vs)
        h = qq * (len(s) - 1)
        lo = math.floor(h)
        hi = min(lo + 1, len(s) - 1)
        t = S(h - lo, None, False)
        return s[lo] + (s[hi] - s[lo]) * t
    return reduce_(f, a, axis, keepdims)


@ov('quantile')
def quantile(a, q, axis=None, **k):
    return percentile(a, lift(q) * 100, axis, **k)


@ov('cumsum')
def cumsum(a, axis=None, **k):
    def f(vs):
        out, s = [], lift(0)
        for v in vs:
            s = s + v
            out.append(s)
        return out
    return _along(f, a, axis)


@ov('matmul', 'dot')
def matmul(a, b, **k):
    a, b = asarray(a), asarray(b)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return binop('mul', a, b)
    return mk(_obj(np.dot(a.plain, b.plain)) if a.ndim <= 2 and b.ndim <= 2
              else np.matmul(a.plain, b.plain))


def outer_op(name, a, b):
    a, b = asarray(a), asarray(b)
    r = OVERRIDE[name](a.reshape(a.shape + (1,) * b.ndim), b)
    return r


@ov('outer')
def outer(a, b, **k):
    return outer_op('multiply', asarray(a).ravel(), asarray(b).ravel())


@ov('interp')
def interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = list(asarray(xp)), list(asarray(fp))
    n = len(xp)
    lo = fp[0] if left is None else left
    hi = fp[-1] if right is None else right

    def f(v):
        v = lift(v)
        r = lift(hi)
        r = ite(cmp('eq', v, xp[-1]), lift(fp[-1]), r)
        for i in range(n - 2, -1, -1):
            d = lift(xp[i + 1]) - xp[i]
            val = lift(fp[i]) + (lift(fp[i + 1]) - fp[i]) * (v - xp[i]) / d
            r = ite(cmp('lt', v, xp[i + 1]), val, r)
        return sym.to_real(ite(cmp('lt', v, xp[0]), lift(lo), r))
    return emap(f, x)


def solve_exact(M, rhs):
    """Gaussian elimination, constant rational M, symbolic rhs columns."""
    n = len(M)
    M = [row[:] for row in M]
    rhs = [list(r) for r in rhs]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        rhs[c], rhs[p] = rhs[p], rhs[c]
        iv = 1 / M[c][c]
        M[c] = [v * iv for v in M[c]]
        rhs[c] = [S(iv, None, False) * v for v in rhs[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                t = M[r][c]
                M[r] = [x - t * y for x, y in zip(M[r], M[c])]
                rhs[r] = [x - S(t, None, False) * y
                          for x, y in zip(rhs[r], rhs[c])]
    return rhs


def _lsq(A, B):
    """exact least squares; A const rows of Fractions, B list of S."""
    m, n = len(A), len(A[0])
    AtA = [[sum(A[k][i] * A[k][j] for k in range(m)) for j in range(n)]
           for i in range(n)]
    Atb = [[_fsum([S(A[k][i], None, False) * B[k] for k in range(m)])]
           for i in range(n)]
    return [r[0] for r in solve_exact(AtA, Atb)]


def _cf(v):
    v = lift(v)
    if not v.const:
        if v.i:
            return Fraction(ENG.concretize(v.e))
        raise EngineLimit("symbolic design matrix")
    return Fraction(v.c)


@ov('polyfit')
def polyfit(x, y, deg, **k):
    deg = int(deg)
    if deg == 1 and len(x) == len(y) and len(y) > 1 and any(
            not lift(v).const and not lift(v).i for v in asarray(x)):
        xs, ys = [lift(v) for v in asarray(x)], [lift(v) for v in asarray(y)]
        n = len(xs)
        sx, sy = sum(xs[1:], xs[0]), sum(ys[1:], ys[0])
        d = n * sum([v * v for v in xs[1:]], xs[0] * xs[0]) - sx * sx
        if not bool(cmp('gt', d, 0)):
            raise EngineLimit("rank-deficient polyfit")
        a = (n * sum([u * v for u, v in zip(xs[1:], ys[1:])],
                     xs[0] * ys[0]) - sx * sy) / d
        return asarray([a, (sy - a * sx) / n])
    xs = [_cf(v) for v in asarray(x)]
    if len(xs) == 0:
        raise TypeError("expected non-empty vector for x")
    if len(xs) != len(y):
        raise TypeError("expected x and y to have same length")
    A = [[xv ** (deg - j) for j in range(deg + 1)] for xv in xs]
    if len(xs) <= deg:
        raise EngineLimit("rank-deficient polyfit")
    return asarray(_lsq(A, [lift(v) for v in asarray(y)]))


@ov('polyval')
def polyval(p, x):
    r = lift(0)
    for c in asarray(p):
        r = r * x + c
    return r


@ov('gradient')
def gradient(a, *varargs, axis=None, **k):
    a = asarray(a)
    if varargs:
        raise EngineLimit("gradient spacing")
    axs = _axes(axis, a.ndim)
    res = []
    for ax in axs:
        def f(vs):
            n = len(vs)
            vs = [lift(v) for v in vs]
            out = [vs[1] - vs[0]]
            for i in range(1, n - 1):
                out.append((vs[i + 1] - vs[i - 1]) * 0.5)
            out.append(vs[-1] - vs[-2])
            return [sym.to_real(v) for v in out]
        res.append(_along(f, a, ax, 'float64'))
    return res[0] if len(res) == 1 else res


@ov('convolve')
def convolve(a, v, mode='full'):
    a, v = list(asarray(a)), list(asarray(v))
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    fulls = []
    for k in range(n + m - 1):
        fulls.append(_fsum([lift(a[i]) * v[k - i] for i in range(n)
                            if 0 <= k - i < m]))
    if mode == 'same':
        s = (m - 1) // 2
        fulls = fulls[s:s + n]
    elif mode == 'valid':
        fulls = fulls[m - 1:n]
    return asarray(fulls)


@ov('trapz', 'trapezoid')
def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    n = y.shape[axis]
    lo, hi = [slice(None)] * y.ndim, [slice(None)] * y.ndim
    hi[axis], lo[axis] = slice(1, None), slice(0, n - 1)
    d = dx if x is None else diff(x)
    return sum_(d * (y[tuple(hi)] + y[tuple(lo)]) * 0.5, axis=axis)


@ov('apply_along_axis')
def apply_along_axis(f, axis, a, *args, **kw):
    a = asarray(a)
    ax = int(axis) % a.ndim
    o = np.moveaxis(a.plain, ax, -1)
    res = {}
    for pos in np.ndindex(*o.shape[:-1]):
        res[pos] = _obj(f(mk(o[pos], a._ldt), *args, **kw))
    sh = next(iter(res.values())).shape
    out = np.empty(o.shape[:-1] + sh, dtype=object)
    for pos, v in res.items():
        out[pos] = v if sh else v[()]
    if sh:
        out = np.moveaxis(out, -1, ax)
    return mk(np.array(out))


@ov('apply_over_axes')
def _aoa(*a, **k):
    raise EngineLimit("apply_over_axes")


@ov('unique')
def unique(a, **k):
    if k:
        return tosym(np.unique(tofloat(asarray(a)), **k))
    s = _sorted(list(asarray(a).ravel()))
    out = []
    for v in s:
        if not out or not bool(cmp('eq', out[-1], v)):
            out.append(v)
    return asarray(out)


@ov('vectorize')
def vectorize(f, **k):
    return lambda *a: emap(f, *a)


@ov('issubdtype')
def issubdtype(a, b):
    nm = dtname(a)
    k = _KIND[nm]
    key = getattr(b, '_abstract', None)
    if key:
        return k in key
    return nm == dtname(b)


@ov('result_type')
def result_type(*a):
    return LD(promote(*[ldt(x) if not isinstance(x, (LD, str, type))
                        else dtname(x) for x in a]))


@ov('can_cast')
def can_cast(a, b, **k):
    return np.can_cast(dtname(a), dtname(b))


@ov('iinfo')
def iinfo(dt):
    return np.iinfo(dtname(dt))


@ov('finfo')
def finfo(dt):
    return np.finfo(dtname(dt))


@ov('isscalar')
def isscalar(x):
    return not isinstance(x, (np.ndarray, list, tuple))


@ov('iscomplexobj')
def iscomplexobj(x):
    return _KIND[ldt(x)] == 'c'


@ov('histogram')
def _histogram(*a, **k):
    if is_const(list(a)):
        return tosym(np.histogram(*tofloat(list(a)), **tofloat(k)))
    raise EngineLimit("histogram of symbolic data")


@ov('dtype')
def _dtype(x, **k):
    return LD(dtname(x))


@ov('errstate')
class _errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


@ov('seterr')
def _seterr(**k):
    return {}


@ov('may_share_memory', 'shares_memory')
def _share(a, b):
    return np.shares_memory(_obj(a), _obj(b))


@ov('save', 'load', 'savetxt', 'loadtxt')
def _io(*a, **k):
    raise EngineLimit("numpy file I/O")


# ---- scalar types
class _ScalarMeta(type):
    def __call__(cls, x=0, *a, **k):
        return cast(x if not isinstance(x, (list, tuple)) else asarray(x),
                    cls._ldname)

    def __instancecheck__(cls, v):
        if isinstance(v, S):
            return v.i == (_KIND[cls._ldname] in 'iu')
        if isinstance(v, (SB,)):
            return cls._ldname == 'bool'
        return isinstance(v, np.dtype(cls._ldname).type)

    def __eq__(cls, o):
        try:
            return dtname(cls) == dtname(o)
        except Exception:
            return False

    def __hash__(cls):
        return hash(cls._ldname)


SCALARS = {}
for _n in ('float16', 'float32', 'float64', 'int8', 'int16', 'int32',
           'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'bool',
           'complex64', 'complex128'):
    SCALARS[_n] = _ScalarMeta(_n, (), {'_ldname': _n})


class _AbsMeta(type):
    def __instancecheck__(cls, v):
        if isinstance(v, S):
            return ('i' if v.i else 'f') in cls._abstract
        if isinstance(v, SArr):
            return False
        return isinstance(v, cls._real)


def _abs(name, kinds, real_):
    return _AbsMeta(name, (), {'_abstract': kinds, '_real': real_})


ABSTRACT = {'integer': _abs('integer', 'iu', np.integer),
            'floating': _abs('floating', 'f', np.floating),
            'number': _abs('number', 'iufc', np.number),
            'signedinteger': _abs('signedinteger', 'i', np.signedinteger),
            'unsignedinteger': _abs('unsignedinteger', 'u',
                                    np.unsignedinteger),
            'inexact': _abs('inexact', 'fc', np.inexact),
            'complexfloating': _abs('complexfloating', 'c',
                                    np.complexfloating),
            'generic': _abs('generic', 'iufcb', np.generic)}


class _NdMeta(type):
    def __instancecheck__(cls, v):
        return isinstance(v, np.ndarray)

    def __getattr__(cls, name):
        return getattr(SArr, name)


class ndarray_shim(metaclass=_NdMeta):
    @staticmethod
    def flatten(a, *args):
        return asarray(a).flatten()


# ---- fft
def _dft_tab(n, sgn):
    tab = []
    for k in range(n):
        ang = Fraction(k, n)
        ex = {Fraction(0): (1, 0), Fraction(1, 2): (-1, 0),
              Fraction(1, 4): (0, 1), Fraction(3, 4): (0, -1)}.get(ang)
        if ex:
            c, s = ex
            tab.append((Fraction(c), Fraction(s) * sgn))
        else:
            tab.append((Fraction(math.cos(2 * math.pi * k / n)),
                        Fraction(sgn * math.sin(2 * math.pi * k / n))))
    return tab


def _dft(vs, inv=False):
    n = len(vs)
    tab = _dft_tab(n, 1 if inv else -1)
    out = []
    vs = [SC.of(lift(v)) for v in vs]
    sc = S(Fraction(1, n), None, False) if inv else None
    for k in range(n):
        re, im = lift(0.0), lift(0.0)
        for j, v in enumerate(vs):
            c, s = tab[(k * j) % n]
            cS, sS = S(c, None, False), S(s, None, False)
            re = re + v.re * cS - v.im * sS
            im = im + v.re * sS + v.im * cS
        if inv:
            re, im = re * sc, im * sc
        out.append(SC(re, im))
    return out


class FFT:
    @staticmethod
    def fft(a, n=None, axis=-1, norm=None, **k):
        if n is not None or norm is not None:
            raise EngineLimit("fft n/norm")
        return _along(lambda v: _dft(v), a, axis, 'complex128')

    @staticmethod
    def ifft(a, n=None, axis=-1, norm=None, **k):
        if n is not None or norm is not None:
            raise EngineLimit("fft n/norm")
        return _along(lambda v: _dft(v, True), a, axis, 'complex128')

    @staticmethod
    def fft2(a, s=None, axes=(-2, -1), norm=None, **k):
        for ax in axes:
            a = FFT.fft(a, axis=ax)
        return a

    @staticmethod
    def ifft2(a, s=None, axes=(-2, -1), norm=None, **k):
        for ax in axes:
            a = FFT.ifft(a, axis=ax)
        return a

    @staticmethod
    def rfft(a, n=None, axis=-1, **k):
        m = asarray(a).shape[axis]
        r = FFT.fft(a, axis=axis)
        sl = [slice(None)] * r.ndim
        sl[axis] = slice(0, m // 2 + 1)
        return r[tuple(sl)]

    @staticmethod
    def irfft(a, n=None, axis=-1, **k):
        a = asarray(a)
        m = a.shape[axis]
        n = operator.index(n) if n is not None else 2 * (m - 1)

        def f(vs):
            vs = [SC.of(lift(v)) for v in vs][:n // 2 + 1]
            fullv = vs + [vs[n - k].conjugate()
                          for k in range(len(vs), n)]
            return [v.re for v in _dft(fullv, True)]
        return _along(f, a, axis, 'float64')

    @staticmethod
    def fftshift(a, axes=None):
        a = asarray(a)
        ax = tuple(range(a.ndim)) if axes is None else _axes(axes, a.ndim)
        return mk(np.fft.fftshift(a.plain, ax), a._ldt)

    @staticmethod
    def ifftshift(a, axes=None):
        a = asarray(a)
        ax = tuple(range(a.ndim)) if axes is None else _axes(axes, a.ndim)
        return mk(np.fft.ifftshift(a.plain, ax), a._ldt)

    @staticmethod
    def fftfreq(n, d=1.0, **k):
        n = operator.index(n)
        m = (n - 1) // 2 + 1
        ls = list(range(m)) + list(range(-(n // 2), 0))
        return asarray([lift(v) / (lift(d) * n) for v in ls])

    @staticmethod
    def rfftfreq(n, d=1.0, **k):
        n = operator.index(n)
        return asarray([lift(v) / (lift(d) * n) for v in range(n // 2 + 1)])


for _n in ('fft', 'ifft', 'fft2', 'ifft2'):
    setattr(FFT, _n.replace('fft2', 'fftn') if _n.endswith('2') else _n,
            getattr(FFT, _n)) if False else None


class Random:
    """np.random: arbitrary values constrained by the documented range."""

    def __getattr__(self, n):
        raise EngineLimit("np.random.%s" % n)

    @staticmethod
    def seed(*a):
        return None

    def rand(self, *shape):
        r = empty(shape if shape else (1,))
        for v in r.plain.reshape(-1):
            ENG.add(z3.And(v.e >= 0, v.e < 1))
        return r if shape else r[0]

    def random(self, size=None):
        return self.rand(*( _shape(size) if size is not None else ()))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            return S(None, ENG.new_real('rnd'), False)
        return empty(_shape(size))

    def randint(self, low, high=None, size=None, **k):
        if high is None:
            low, high = 0, low

        def one():
            e = ENG.new_int('rndi')
            ENG.add(z3.And(e >= lift(low).z(), e < lift(high).z()))
            return S(None, e, True)
        if size is None:
            return one()
        o = np.empty(_shape(size), dtype=object)
        for p in np.ndindex(*o.shape):
            o[p] = one()
        return mk(o, 'int64')


class Linalg:
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        f = getattr(np.linalg, n)

        def g(*a, **k):
            if is_const(list(a)):
                return tosym(f(*tofloat(list(a)), **tofloat(k)))
            raise EngineLimit("np.linalg.%s of symbolic data" % n)
        return g

    @staticmethod
    def norm(x, **k):
        return un('sqrt', sum_(square(asarray(x))))

    @staticmethod
    def lstsq(A, B, rcond=None):
        rows = [[_cf(v) for v in r] for r in asarray(A)]
        return asarray(_lsq(rows, [lift(v) for v in asarray(B)])), None, \
            None, None


_CONSTS = {'pi': S(_PI, None, False), 'e': S(Fraction(math.e), None, False),
           'inf': S(math.inf, None, False), 'nan': S(math.nan, None, False),
           'newaxis': None}


class _NP(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.fft = FFT
        self.random = Random()
        self.linalg = Linalg()
        self.ogrid = _Grid(True)
        self.mgrid = _Grid(False)
        self.ndarray = ndarray_shim
        self.exceptions = np.exceptions
        self.__version__ = np.__version__
        for k, v in _CONSTS.items():
            setattr(self, k, v)
        for k, v in SCALARS.items():
            setattr(self, k, v)
        self.bool_ = SCALARS['bool']
        self.float_ = self.double = SCALARS['float64']
        self.single = SCALARS['float32']
        self.intp = self.int_ = SCALARS['int64']
        for k, v in ABSTRACT.items():
            setattr(self, k, v)

    def __getattr__(self, name):
        f = OVERRIDE.get(name)
        if f is not None:
            if name in ('add', 'subtract', 'multiply', 'divide', 'maximum',
                        'minimum'):
                f = _UfObj(name, f)
            setattr(self, name, f)
            return f
        r = getattr(np, name)
        if isinstance(r, np.ufunc):
            def g(*a, **k):
                if is_const(list(a)):
                    return tosym(r(*tofloat(list(a)), **k))
                raise EngineLimit("numpy.%s of symbolic data" % name)
        elif isinstance(r, type) or not callable(r):
            return r
        else:
            def g(*a, **k):
                return generic_call(r, a, k)
        g.__name__ = name
        setattr(self, name, g)
        return g


class _UfObj:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def outer(self, a, b):
        return outer_op(self.name, a, b)

    def reduce(self, a, axis=0, **k):
        return ufunc_dispatch(getattr(np, self.name), 'reduce', a, axis=axis,
                              **k)

    def accumulate(self, a, axis=0):
        return cumsum(a, axis=axis)


NP = _NP()
