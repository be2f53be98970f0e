"""Symbolic scalars, path exploration and solver access.

Values are exact: concrete numbers are ints / Fractions, symbolic numbers are
z3 Int / Real terms.  Floating-point rounding is idealised away (stated in
DESIGN.md); every counterexample is replayed on the real floating-point code.
"""
import math
import time
from fractions import Fraction
import z3


class EngineLimit(BaseException):
    """The code under test left the modelled fragment."""


class PathAbort(BaseException):
    """Current path is infeasible / was cut (never caught by user code)."""


class Infeasible(PathAbort):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.obligations = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unknown = 0
        self.branches = 0


class Engine:
    def __init__(self, branch_timeout=20000, check_timeout=120000,
                 max_paths=20000):
        self.stats = Stats()
        self.branch_timeout = branch_timeout
        self.check_timeout = check_timeout
        self.max_paths = max_paths
        self.reset_path([])

    # -- one path ---------------------------------------------------------
    def reset_path(self, prefix):
        self.solver = z3.Solver()
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.pc = []
        self.fresh = 0
        self.lin_cache = {}
        self.dirty = True
        self.inputs = []
        self.ranges = {}
        self.opaque_div = False
        self.norm1 = False
        self.norm2 = False
        self.abstract = False
        self.bounds = {}
        self.cmpinfo = {}
        self.keep = {}
        self.squares = {}

    # -- what the path condition says about linear terms -------------------
    def note(self, e, truth=True):
        if z3.is_not(e):
            self.note(e.arg(0), not truth)
            return
        if (truth and z3.is_and(e)) or (not truth and z3.is_or(e)):
            for k in range(e.num_args()):
                self.note(e.arg(k), truth)
            return
        inf = self.cmpinfo.get(e.get_id())
        if inf is None:
            return
        k, op, c, _ = inf
        b = self.bounds.setdefault(k, [None, False, None, False])
        if not truth:
            op = {'le': 'gt', 'ge': 'lt'}[op]
        if op in ('le', 'lt'):
            st = op == 'lt'
            if b[2] is None or c < b[2] or (c == b[2] and st):
                b[2], b[3] = c, st
        else:
            st = op == 'gt'
            if b[0] is None or c > b[0] or (c == b[0] and st):
                b[0], b[1] = c, st

    def known(self, k, op, c):
        b = self.bounds.get(k)
        if b is None:
            return None
        lo, ls, hi, hs = b
        if op in ('ge', 'gt'):
            r = self.known(k, 'lt' if op == 'ge' else 'le', c)
            return None if r is None else not r
        if op == 'le':
            if hi is not None and hi <= c:
                return True
            if lo is not None and (lo > c or (lo == c and ls)):
                return False
        if op == 'lt':
            if hi is not None and (hi < c or (hi == c and hs)):
                return True
            if lo is not None and lo >= c:
                return False
        return None

    def add(self, e):
        if e is True:
            return
        if e is False:
            raise Infeasible()
        if isinstance(e, SB):
            e = e.e
        self.pc.append(e)
        self.solver.add(e)
        self.note(e)

    def _check(self, *assump, timeout=None):
        t = time.time()
        self.solver.set('timeout', timeout or self.branch_timeout)
        r = self.solver.check(*assump)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        self.last = self.solver
        if r == z3.unknown:
            # the incremental core gave up: once more from scratch, which
            # lets z3 pick a tactic for the fragment (nlsat, ...)
            t = time.time()
            s2 = z3.Solver()
            s2.set('timeout', timeout or self.branch_timeout)
            s2.add(*self.solver.assertions())
            s2.add(*assump)
            r = s2.check()
            self.last = s2
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def assume(self, cond):
        if isinstance(cond, SB):
            cond = cond.e
        if isinstance(cond, (bool,)):
            if not cond:
                raise Infeasible()
            return
        simp = z3.simplify(cond)
        if z3.is_false(simp):
            raise Infeasible()
        if not z3.is_true(simp):
            self.add(cond)

    def branch(self, e):
        """Decide boolean term e on the current path (forks)."""
        if isinstance(e, SB):
            e = e.e
        simp = z3.simplify(e)
        if z3.is_true(simp):
            return True
        if z3.is_false(simp):
            return False
        self.stats.branches += 1
        self.tick()
        k = len(self.trace)
        if k < len(self.prefix):
            ch = self.prefix[k]
            self.trace.append(ch)
            self.add(e if ch else z3.Not(e))
            return ch
        rt = self._check(e)
        if rt == z3.unsat:
            ch = False
        else:
            rf = self._check(z3.Not(e))
            if rf == z3.unsat:
                ch = True
            else:
                ch = True
                self.pending.append(self.trace + [False])
        self.trace.append(ch)
        self.add(e if ch else z3.Not(e))
        return ch

    deadline = None

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise EngineLimit("time budget of the case used up")

    def concretize(self, e, cap=200):
        """Pick a concrete int value for integer term e (forks)."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        k = len(self.trace)
        excl = []
        if k < len(self.prefix):
            d = self.prefix[k]
            if d[0] == 'v':
                self.trace.append(d)
                self.add(e == d[1])
                return d[1]
            excl = list(d[1])
            for x in excl:
                self.solver.add(e != x)
        if len(excl) > cap:
            raise EngineLimit("concretisation of an integer term needs more "
                              "than %d values" % cap)
        r = self._check()
        if r == z3.unsat:
            raise Infeasible()
        if r == z3.unknown:
            raise EngineLimit("solver gave up on a concretisation")
        v = self.last.model().eval(e, model_completion=True).as_long()
        # one more value possible?
        r2 = self._check(e != v)
        if r2 != z3.unsat:
            self.pending.append(self.trace + [('n', excl + [v])])
        self.trace.append(('v', v))
        self.add(e == v)
        return v

    def new_real(self, name=None):
        self.fresh += 1
        return z3.Real("%s!%d" % (name or 't', self.fresh))

    def new_int(self, name=None):
        self.fresh += 1
        return z3.Int("%s!%d" % (name or 'k', self.fresh))


ENG = Engine()


def eng():
    return ENG


# ----------------------------------------------------------- linear forms
_BIG = 1 << 120
_GRID = 1 << 72
_SMALL = 1 << 30
_SNAP = 1 << 40
_TINY = Fraction(1, 10 ** 13)


def _trim(x):
    if x.denominator > _BIG:
        return Fraction(round(x * _GRID), _GRID)
    return x


_SC = {}


def _snapc(c):
    """Coefficients that agree to about 1e-12 get one representative."""
    if c.denominator <= 4096:
        return c
    r = _SC.get(c)
    if r is None:
        g = c.limit_denominator(4096)
        if abs(g - c) < Fraction(1, 10 ** 12):
            r = g
        elif c.denominator > _SMALL:
            r = Fraction(round(c * _SNAP), _SNAP)
        else:
            r = c
        if len(_SC) > 200000:
            _SC.clear()
        _SC[c] = r
    return r


def _build(l):
    ts = []
    for k in sorted(l[0]):
        t, c = l[0][k]
        if c == 1:
            ts.append(t)
            continue
        c = _snapc(c)
        if c == 1:
            ts.append(t)
        elif c:
            ts.append(z3.RealVal(c) * t)
    c = _snapc(l[1])
    if c or not ts:
        ts.append(z3.RealVal(c))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def _lin(s):
    if s.l is not None:
        return s.l
    if s._e is None:
        return ({}, Fraction(s.c))
    t = z3.ToReal(s._e) if s.i else s._e
    ENG.keep.setdefault(t.get_id(), t)    # ids must stay stable
    l = ({t.get_id(): (t, Fraction(1))}, Fraction(0))
    if not s.i:
        s.l = l
    return l


def _mklin(d, c):
    if not d:
        return S(c, None, False)
    return S(None, None, False, (d, c))


def _ladd(a, b, f):
    (da, ca), (db, cb) = _lin(a), _lin(b)
    d = dict(da)
    for k, (t, v) in db.items():
        o = d.get(k)
        v = v if f == 1 else v * f
        if o is not None:
            v = o[1] + v
            if -_TINY < v < _TINY:
                del d[k]
                continue
        d[k] = (t, v)
    return _mklin(d, ca + cb * f)


def _lscale(a, f):
    d, c = _lin(a)
    r = {}
    for k, (t, v) in d.items():
        v = _trim(v * f)
        if v:
            r[k] = (t, v)
    return _mklin(r, _trim(c * f))


def _single(s):
    """(term, coefficient) of a real that is one scaled term, else None."""
    if s._e is None and s.l is None or s.i:
        return None
    d, c = _lin(s)
    if c != 0 or len(d) != 1:
        return None
    return next(iter(d.values()))


def _proportion(a, b):
    """The constant a / b for two real forms of the same direction, else
    None."""
    if a.i or b.i or (a._e is None and a.l is None) or (
            b._e is None and b.l is None):
        return None
    (da, ca), (db, cb) = _lin(a), _lin(b)
    if not da or len(da) != len(db) or set(da) != set(db):
        return None
    k = next(iter(da))
    r = da[k][1] / db[k][1]
    for i, (_, v) in da.items():
        e = v - r * db[i][1]
        if not -_TINY < e < _TINY:
            return None
    e = ca - r * cb
    return _trim(r) if -_TINY < e < _TINY else None


def _monomial(p, q):
    """Product of two scaled terms, coefficients in front."""
    (t, c), (u, f) = p, q
    if t.get_id() > u.get_id():
        t, u = u, t
    m = t * u
    ENG.keep.setdefault(m.get_id(), m)
    if t.eq(u):
        ENG.squares[m.get_id()] = t
    return S(None, None, False, ({m.get_id(): (m, _trim(c * f))},
                                 Fraction(0)))


def _reciprocal(t):
    r = z3.RealVal(1) / t
    ENG.keep.setdefault(r.get_id(), r)
    b = ENG.bounds.get(t.get_id())
    if b is not None and b[0] is not None and (
            b[0] > 0 or b[0] == 0 and b[1]):
        ENG.bounds.setdefault(r.get_id(), [Fraction(0), True, None, False])
    return S(None, None, False, ({r.get_id(): (r, Fraction(1))},
                                 Fraction(0)))


def _root(s):
    """Square root of c x x, or None."""
    p = _single(s)
    if p is None or p[1] < 0:
        return None
    x = ENG.squares.get(p[0].get_id())
    if x is None:
        return None
    x = S(None, x, False)
    r = un('sqrt', S(p[1], None, False))
    c = cmp('ge', x, 0)
    return (x if c is True else -x if c is False else abs(x)) * r


# ---------------------------------------------------------------- scalars
def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return x
        return Fraction(x)
    return None


class S:
    """Exact scalar: const (c) or z3 term (e); i = integer-typed."""
    __slots__ = ('c', '_e', 'i', 'l')
    __array_priority__ = 1000

    def __init__(self, c=None, e=None, i=False, l=None):
        self.c = c
        self._e = e
        self.i = i
        self.l = l          # linear form: ({id: (term, coefficient)}, const)

    @property
    def e(self):
        if self._e is None and self.l is not None:
            self._e = _build(self.l)
        return self._e

    # ---- numpy scalar look-alike
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        from engine import snp
        return snp.LD('int64' if self.i else 'float64')

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S(0, None, self.i)

    @property
    def T(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **kw):
        from engine import snp
        return snp.cast(self, dt)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from engine import snp
        return snp.ufunc_dispatch(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from engine import snp
        return snp.function_dispatch(func, args, kwargs)

    def _red(self, *a, **k):
        return self
    mean = sum = min = max = flatten = ravel = squeeze = prod = _red

    # ---- term
    def z(self):
        if not self.const:
            return self.e
        c = self.c
        if isinstance(c, float):
            raise EngineLimit("inf/nan used in a symbolic operation")
        if self.i:
            return z3.IntVal(int(c))
        return z3.RealVal(c)

    def zr(self):
        """Real-sorted term."""
        if not self.const:
            return z3.ToReal(self.e) if self.i else self.e
        if isinstance(self.c, float):
            raise EngineLimit("inf/nan used in a symbolic operation")
        return z3.RealVal(self.c)

    @property
    def const(self):
        return self._e is None and self.l is None

    # ---- conversions
    def __index__(self):
        if self.const:
            if isinstance(self.c, int) or (isinstance(self.c, Fraction)
                                           and self.i):
                return int(self.c)
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        if not self.i:
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        return ENG.concretize(self.e)

    def __int__(self):
        if self.const:
            return int(self.c)
        return ENG.concretize(trunc(self).z())

    def __float__(self):
        if self.const:
            return float(self.c)
        raise EngineLimit("float() of a symbolic value reached C code")

    def __complex__(self):
        return complex(float(self))

    def __bool__(self):
        if self.const:
            return bool(self.c)
        return ENG.branch(self.e != 0)

    def __hash__(self):
        if self.const:
            return hash(self.c)
        return hash(self.e)

    def __repr__(self):
        if self.const:
            return repr(int(self.c)) if self.i else repr(float(self.c))
        return "<%s>" % (str(self.e)[:60])

    def __str__(self):
        if self.const:
            return str(int(self.c)) if self.i else str(float(self.c))
        return TOKENS.put(self)

    def __format__(self, spec):
        if self.const:
            return format(int(self.c) if self.i else float(self.c), spec)
        return TOKENS.put(self, spec)

    # ---- arithmetic
    def __add__(self, o): return arith('add', self, o)
    def __radd__(self, o): return arith('add', o, self)
    def __sub__(self, o): return arith('sub', self, o)
    def __rsub__(self, o): return arith('sub', o, self)
    def __mul__(self, o): return arith('mul', self, o)
    def __rmul__(self, o): return arith('mul', o, self)
    def __truediv__(self, o): return arith('div', self, o)
    def __rtruediv__(self, o): return arith('div', o, self)
    def __floordiv__(self, o): return arith('fdiv', self, o)
    def __rfloordiv__(self, o): return arith('fdiv', o, self)
    def __mod__(self, o): return arith('mod', self, o)
    def __rmod__(self, o): return arith('mod', o, self)
    def __pow__(self, o): return arith('pow', self, o)
    def __rpow__(self, o): return arith('pow', o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        if self.const:
            return S(-self.c, None, self.i)
        if not self.i:
            return _lscale(self, -1)
        return S(None, -self.e, self.i)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.const:
            return S(abs(self.c), None, self.i)
        return ite(cmp('lt', self, 0), -self, self)

    def __lshift__(self, o): return S(int(self) << int(o), None, True)
    def __rshift__(self, o): return S(int(self) >> int(o), None, True)
    def __and__(self, o): return S(int(self) & int(o), None, True)
    __rand__ = __and__
    def __or__(self, o): return S(int(self) | int(o), None, True)
    __ror__ = __or__
    def __xor__(self, o): return S(int(self) ^ int(o), None, True)
    def __invert__(self): return S(~int(self), None, True)

    # ---- comparison
    def __lt__(self, o): return cmp('lt', self, o)
    def __le__(self, o): return cmp('le', self, o)
    def __gt__(self, o): return cmp('gt', self, o)
    def __ge__(self, o): return cmp('ge', self, o)
    def __eq__(self, o): return cmp('eq', self, o)
    def __ne__(self, o): return cmp('ne', self, o)

    # ---- rounding
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    def __trunc__(self): return trunc(self)

    def __round__(self, n=None):
        if n is None:
            return rint(self)
        return around(self, n)

    def round(self, n=0, **k):
        return around(self, int(n))

    def is_integer(self):
        if self.i:
            return True
        if self.const:
            return float(self.c).is_integer()
        return SB.mk(z3.IsInt(self.e))

    def clip(self, lo=None, hi=None):
        from engine import snp
        return snp.clip(self, lo, hi)

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    # names numpy calls on object elements
    def sqrt(self): return un('sqrt', self)
    def exp(self): return un('exp', self)
    def log(self): return un('log', self)
    def sin(self): return un('sin', self)
    def cos(self): return un('cos', self)
    def floor(self): return floor(self)
    def ceil(self): return ceil(self)
    def rint(self): return rint(self)


class SB:
    """Symbolic boolean."""
    __slots__ = ('e',)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @staticmethod
    def mk(e):
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SB(e)

    shape = ()
    ndim = 0
    size = 1

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from engine import snp
        return snp.ufunc_dispatch(ufunc, method, *inputs, **kw)

    def __bool__(self):
        return ENG.branch(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __invert__(self):
        return SB.mk(z3.simplify(z3.Not(self.e)))

    def num(self):
        return S(None, z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), True)

    def __and__(self, o): return band(self, o)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SB)):
            return SB.mk(z3.simplify(z3.Xor(self.e, _ze(o))))
        return NotImplemented
    __rxor__ = __xor__

    def __add__(self, o): return arith('add', self.num(), o)
    def __radd__(self, o): return arith('add', o, self.num())
    def __sub__(self, o): return arith('sub', self.num(), o)
    def __rsub__(self, o): return arith('sub', o, self.num())
    def __mul__(self, o): return arith('mul', self.num(), o)
    def __rmul__(self, o): return arith('mul', o, self.num())
    def __truediv__(self, o): return arith('div', self.num(), o)
    def __rtruediv__(self, o): return arith('div', o, self.num())
    def __neg__(self): return -self.num()
    def __lt__(self, o): return cmp('lt', self.num(), o)
    def __le__(self, o): return cmp('le', self.num(), o)
    def __gt__(self, o): return cmp('gt', self.num(), o)
    def __ge__(self, o): return cmp('ge', self.num(), o)

    def __eq__(self, o):
        if isinstance(o, (bool, SB)):
            return SB.mk(z3.simplify(self.e == _ze(o)))
        return cmp('eq', self.num(), o)

    def __ne__(self, o):
        return bnot(self == o)

    def __hash__(self):
        return hash(self.e)

    def __abs__(self): return self.num()
    def astype(self, dt, **k):
        from engine import snp
        return snp.cast(self, dt)

    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self

    def __repr__(self):
        return "<bool %s>" % str(self.e)[:60]


def _ze(b):
    if isinstance(b, SB):
        return b.e
    return z3.BoolVal(bool(b))


def as_bool(b):
    """Any truthy scalar -> bool | SB without forking."""
    if isinstance(b, (bool, SB)):
        return b
    if isinstance(b, S):
        if b.const:
            return bool(b.c)
        return SB.mk(b.e != 0)
    if isinstance(b, z3.BoolRef):
        return SB.mk(z3.simplify(b))
    return bool(b)


def bnot(b):
    b = as_bool(b)
    if isinstance(b, bool):
        return not b
    return ~b


def band(*bs):
    es = []
    for b in bs:
        b = as_bool(b)
        if b is False:
            return False
        if b is not True:
            es.append(b.e)
    if not es:
        return True
    if len(es) == 1:
        return SB.mk(es[0])
    return SB.mk(z3.And(*es))


def bor(*bs):
    es = []
    for b in bs:
        b = as_bool(b)
        if b is True:
            return True
        if b is not False:
            es.append(b.e)
    if not es:
        return False
    if len(es) == 1:
        return SB.mk(es[0])
    return SB.mk(z3.Or(*es))


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    """Branch-free conditional on scalars."""
    c = as_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return SB.mk(z3.simplify(z3.If(c.e, _ze(a), _ze(b))))
    if isinstance(a, SC) or isinstance(b, SC):
        a, b = SC.of(a), SC.of(b)
        return SC(ite(c, a.re, b.re), ite(c, a.im, b.im))
    a, b = lift(a), lift(b)
    if a.const and b.const and a.c == b.c and a.i == b.i:
        return a
    if not a.const and not b.const and a.e.eq(b.e):
        return a
    if a.i and b.i:
        return S(None, z3.If(c.e, a.z(), b.z()), True)
    return S(None, z3.If(c.e, a.zr(), b.zr()), False)


class Tokens:
    """str()/format() of symbolic values -> opaque tokens (round trip)."""

    def __init__(self):
        self.tab = {}

    def put(self, s, spec=''):
        key = "\u27e6%d%s\u27e7" % (len(self.tab), ':' + spec if spec else '')
        self.tab[key] = s
        return key

    def get(self, k):
        s = self.tab.get(k)
        if s is None or ':' not in k:
            return s
        return _rounded(s, k[k.index(':') + 1:-1])


def _to_digits(s, n):
    """s rounded to n decimals (n may be negative), halves upwards."""
    q = Fraction(10) ** n
    return to_real(floor(s * S(q, None, False) + S(Fraction(1, 2), None,
                                                   False))) / S(q, None, False)


def _rounded(s, spec):
    """The value read back from a text with this format."""
    spec = spec.lstrip('<>^=+- 0123456789,_')
    if spec in ('', 'd', 'n'):
        return s
    if spec[0] != '.' or spec[-1] not in 'fFeEgG':
        raise EngineLimit("format %r of a symbolic value" % spec)
    n = int(spec[1:-1])
    if spec[-1] in 'fF':
        return _to_digits(s, n)
    n = max(n, 1) - 1 if spec[-1] in 'gG' else n
    a = s if s >= 0 else -s
    if a == 0:
        return s
    for k in range(-16, 9):
        if a < S(Fraction(10) ** (k + 1), None, False):
            return _to_digits(s, n - k)
    raise EngineLimit("format %r of a large value" % spec)


TOKENS = Tokens()


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, SB):
        return x.num()
    if isinstance(x, bool):
        return S(int(x), None, True)
    if isinstance(x, int):
        return S(x, None, True)
    if isinstance(x, float):
        return S(_frac(x), None, False)
    if isinstance(x, Fraction):
        return S(x, None, False)
    if isinstance(x, SC):
        return x
    if isinstance(x, complex):
        return SC(lift(x.real), lift(x.imag))
    if isinstance(x, z3.ArithRef):
        return S(None, x, x.is_int())
    if hasattr(x, 'dtype') and hasattr(x, 'item') and getattr(
            x, 'shape', None) == ():
        v = x.item()
        if isinstance(v, (S, SB, SC)):
            return lift(v)
        if isinstance(v, (bool, int, float, complex)):
            return lift(v)
    return None


def norm_c(v, i):
    if i:
        return S(int(v), None, True)
    if isinstance(v, float):
        return S(_frac(v), None, False)
    return S(Fraction(v), None, False)


def arith(op, a, b):
    import numpy as _np
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        from engine import snp
        return snp.binop(op, a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if op == 'mul':
            if isinstance(a, (list, tuple)):
                return a * int(b)
            return b * int(a)
        return NotImplemented
    if isinstance(a, str) or isinstance(b, str):
        return NotImplemented
    a, b = lift(a), lift(b)
    if a is None or b is None:
        return NotImplemented
    if isinstance(a, SC) or isinstance(b, SC):
        return SC.arith(op, SC.of(a), SC.of(b))
    ii = a.i and b.i
    if a.const and b.const:
        x, y = a.c, b.c
        if isinstance(x, float) or isinstance(y, float):
            return _inf_arith(op, x, y)
        if op == 'add':
            return norm_c(x + y, ii)
        if op == 'sub':
            return norm_c(x - y, ii)
        if op == 'mul':
            return norm_c(x * y, ii)
        if op == 'div':
            if y == 0:
                return _div0(x, ii)
            return norm_c(Fraction(x) / Fraction(y), False)
        if op == 'fdiv':
            if y == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            return norm_c(x // y, ii)
        if op == 'mod':
            if y == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            return norm_c(x % y, ii)
        if op == 'pow':
            if isinstance(y, int) or (isinstance(y, Fraction)
                                      and y.denominator == 1):
                y = int(y)
                if y >= 0:
                    return norm_c(x ** y, ii)
                if x == 0:
                    return S(math.inf, None, False)
                return norm_c(Fraction(x) ** y, False)
            return norm_c(float(x) ** float(y), False)
    # symbolic
    ac, bc = a.const, b.const
    if op == 'add':
        if ac and a.c == 0 and (b.i == ii):
            return b
        if bc and b.c == 0 and (a.i == ii):
            return a
        if ii:
            return S(None, a.z() + b.z(), True)
        if (ac and isinstance(a.c, float)) or (bc and isinstance(b.c, float)):
            raise EngineLimit("inf/nan used in a symbolic operation")
        return _ladd(a, b, 1)
    if op == 'sub':
        if bc and b.c == 0 and (a.i == ii):
            return a
        if ii:
            if not ac and not bc and a.e.eq(b.e):
                return S(0, None, True)
            return S(None, a.z() - b.z(), True)
        if (ac and isinstance(a.c, float)) or (bc and isinstance(b.c, float)):
            raise EngineLimit("inf/nan used in a symbolic operation")
        return _ladd(a, b, -1)
    if op == 'mul':
        for p, q in ((a, b), (b, a)):
            if p.const:
                if isinstance(p.c, float):
                    raise EngineLimit("inf/nan times symbolic")
                if p.c == 0:
                    return S(0 if ii else Fraction(0), None, ii)
                if p.c == 1 and (ii or not q.i):
                    return q
                if not ii:
                    return _lscale(q, Fraction(p.c))
        if not ii:
            p, q = _single(a), _single(b)
            if p is not None and q is not None:
                return _monomial(p, q)
        return S(None, a.z() * b.z() if ii else a.zr() * b.zr(), ii)
    if op == 'div':
        if bc:
            if b.c == 0:
                raise EngineLimit("symbolic value divided by constant zero")
            if isinstance(b.c, float):
                return S(Fraction(0), None, False)
            return _lscale(a, 1 / Fraction(b.c))
        if ac and a.c == 0:
            _note_div(b)
            return S(Fraction(0), None, False)
        _note_div(b)
        if not ac:
            p, q = _single(a), _single(b)
            if p is not None and q is not None and p[0].eq(q[0]):
                return S(p[1] / q[1], None, False)
            if p is not None and q is not None and z3.is_mul(p[0]) and \
                    p[0].num_args() == 2:
                for i in (0, 1):        # t * u / t
                    if p[0].arg(i).eq(q[0]):
                        u = p[0].arg(1 - i)
                        ENG.keep.setdefault(u.get_id(), u)
                        return S(None, None, False, (
                            {u.get_id(): (u, p[1] / q[1])}, Fraction(0)))
        if not ENG.opaque_div:
            q = _single(b)
            if q is not None and ac and not isinstance(a.c, float):
                return _lscale(_reciprocal(q[0]), Fraction(a.c) / q[1])
        if not ac and a.e.eq(b.e):
            return S(Fraction(1), None, False)
        if not ac:
            r = _proportion(a, b)
            if r is not None:
                return S(r, None, False)
        if ENG.opaque_div:
            n = z3.simplify(a.zr(), som=True)
            d = z3.simplify(b.zr(), som=True)
            if n.eq(d):
                return S(Fraction(1), None, False)
            return named('div', [(n,), (d,)])
        return S(None, a.zr() / b.zr(), False)
    if op in ('fdiv', 'mod'):
        if ii:
            if b.e is not None:
                b = S(ENG.concretize(b.e), None, True)
            if b.c == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            az = a.z()
            if b.c > 0:
                q = az / z3.IntVal(b.c)       # z3 int div: floor for b>0
                r = az % z3.IntVal(b.c)
            else:
                q = (-az) / z3.IntVal(-b.c)
                r = az - q * b.c
            return S(None, q if op == 'fdiv' else r, True)
        q = _turns(a / b)
        return q if op == 'fdiv' else a - q * b
    if op == 'pow':
        if b.const:
            y = b.c
            if y == Fraction(1, 2):
                return un('sqrt', a)
            if y == int(y) and abs(int(y)) <= 8:
                y = int(y)
                if y == 0:
                    return lift(1) if ii else lift(1.0)
                r = a
                for _ in range(abs(y) - 1):
                    r = r * a
                if not b.i and r.i:
                    r = to_real(r)
                return r if y > 0 else 1.0 / r
        return uf('pow', a, b)
    raise EngineLimit(op)


def to_real(s):
    s = lift(s)
    if isinstance(s, SC):
        return s
    if not s.i:
        return s
    if s.const:
        return S(Fraction(s.c), None, False)
    return S(None, z3.ToReal(s.e), False)


def _inf_arith(op, x, y):
    x, y = float(x), float(y)
    try:
        r = {'add': lambda: x + y, 'sub': lambda: x - y,
             'mul': lambda: x * y, 'div': lambda: x / y,
             'fdiv': lambda: x // y, 'mod': lambda: x % y,
             'pow': lambda: x ** y}[op]()
    except ZeroDivisionError:
        r = math.nan if x == 0 or x != x else math.copysign(math.inf, x)
    return S(_frac(r), None, False)


DIV_HOOK = [None]
ROOTS = {}         # id of a square root -> (term, what it is the root of)


def _note_div(b):
    if DIV_HOOK[0] is not None:
        DIV_HOOK[0](b)


def _div0(x, ii):
    if DIV_HOOK[0] is not None:
        DIV_HOOK[0](S(0, None, True))
    if x == 0:
        return S(math.nan, None, False)
    return S(math.inf if x > 0 else -math.inf, None, False)


def cmp(op, a, b):
    import numpy as _np
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        from engine import snp
        return snp.cmpop(op, a, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    a, b = lift(a), lift(b)
    if a is None or b is None:
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    if isinstance(a, SC) or isinstance(b, SC):
        a, b = SC.of(a), SC.of(b)
        r = band(cmp('eq', a.re, b.re), cmp('eq', a.im, b.im))
        return r if op == 'eq' else bnot(r)
    if a.const and b.const:
        x, y = a.c, b.c
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y,
                'eq': x == y, 'ne': x != y}[op]
    for p, q, flip in ((a, b, False), (b, a, True)):
        if q.const and isinstance(q.c, float):
            if q.c != q.c:
                return op == 'ne'
            big = (q.c > 0) != flip       # p compared to +inf (or mirrored)
            o = op
            if flip:
                o = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(
                    op, op)
            pos = q.c > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos,
                    'eq': False, 'ne': True}[o]
    if a.i and b.i:
        x, y = a.z(), b.z()
    else:
        d = _ladd(a, b, -1)
        if d.const:
            x, y = d.c, 0
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y,
                    'eq': x == y, 'ne': x != y}[op]
        return _cmplin(op, d.l)
    e = {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y,
         'ge': lambda: x >= y, 'eq': lambda: x == y,
         'ne': lambda: x != y}[op]()
    return SB.mk(z3.simplify(e))


def _cmplin(op, l):
    """linear form op 0"""
    d, c = l
    if d[min(d)][1] < 0:
        d = {k: (t, -v) for k, (t, v) in d.items()}
        c = -c
        op = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(op, op)
    if len(d) == 1:
        (k, (t, v)), = d.items()
        x = ROOTS.get(k)
        if x is not None and op in ('lt', 'le', 'gt', 'ge'):
            b = -Fraction(c) / v            # root op b, the root being >= 0
            if b < 0 or (b == 0 and op in ('lt', 'ge')):
                return op in ('gt', 'ge')
            return cmp(op, x[1], S(b * b, None, False))
    if ENG.norm1 and len(d) == 1:
        (k, (t, v)), = d.items()
        if v != 1:
            d, c = {k: (t, Fraction(1))}, c / v
    t = _build((d, Fraction(0)))
    c = _snapc(-c)
    k = t.get_id()
    if op in ('eq', 'ne'):
        lt, gt = ENG.known(k, 'lt', c), ENG.known(k, 'gt', c)
        if lt or gt:
            return op == 'ne'
        if lt is False and gt is False:
            return op == 'eq'
        e = t == z3.RealVal(c)
        return SB.mk(e if op == 'eq' else z3.Not(e))
    r = ENG.known(k, op, c)
    if r is None and ENG.norm2 and len(d) == 1 \
            and k not in ENG.bounds:
        (_, (x, v)), = d.items()        # bounds of the bare variable
        if v > 0 and v != 1:
            r = ENG.known(x.get_id(), op, Fraction(c) / v)
    if r is not None:
        return r
    base, neg = {'le': ('le', False), 'gt': ('le', True),
                 'ge': ('ge', False), 'lt': ('ge', True)}[op]
    e = t <= z3.RealVal(c) if base == 'le' else t >= z3.RealVal(c)
    ENG.cmpinfo[e.get_id()] = (k, base, c, (e, t))
    return SB.mk(z3.Not(e) if neg else e)


def _turns(s):
    """Real floor: whole numbers are taken out, and the rest is decided when
    the path condition leaves it one value."""
    if s.const:
        return S(Fraction(math.floor(s.c)), None, False)
    d, c = _lin(s)
    whole, rest = {}, {}
    for k, (t, v) in d.items():
        w = z3.is_to_real(t) and v.denominator == 1
        (whole if w else rest)[k] = (t, v)
    r = _mklin(rest, c)
    if r.const:
        f = S(Fraction(math.floor(r.c)), None, False)
    else:
        z = r.zr()
        f, k = None, None
        if ENG._check(timeout=1000) == z3.sat:
            v = ENG.last.model().eval(z, model_completion=True)
            if z3.is_rational_value(v):
                k = math.floor(v.as_fraction())
        if k is not None and ENG._check(
                z3.Or(z < k, z >= k + 1), timeout=1000) == z3.unsat:
            f = S(Fraction(k), None, False)
        if f is None:
            f = S(None, z3.ToReal(z3.ToInt(z)), False)
    return _ladd(_mklin(whole, Fraction(0)), f, 1)


def floor(s):
    s = lift(s)
    if s.i:
        return s
    if s.const:
        if isinstance(s.c, float):
            return s
        return S(math.floor(s.c), None, True)
    return S(None, z3.ToInt(s.e), True)


def ceil(s):
    s = lift(s)
    if s.i:
        return s
    if s.const:
        if isinstance(s.c, float):
            return s
        return S(math.ceil(s.c), None, True)
    return S(None, -z3.ToInt(-s.e), True)


def trunc(s):
    s = lift(s)
    if s.i:
        return s
    if s.const:
        if isinstance(s.c, float):
            raise ValueError("cannot convert float NaN to integer")
        return S(int(s.c), None, True)
    return S(None, z3.If(s.e >= 0, z3.ToInt(s.e), -z3.ToInt(-s.e)), True)


def rint(s):
    """Round half to even, integer result."""
    s = lift(s)
    if s.i:
        return s
    if s.const:
        if isinstance(s.c, float):
            raise ValueError("cannot convert float NaN to integer")
        return S(round(s.c), None, True)
    f = z3.ToInt(s.e)
    d = s.e - z3.ToReal(f)
    half = z3.RealVal(Fraction(1, 2))
    return S(None, z3.If(d < half, f, z3.If(
        d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))), True)


def around(s, n=0):
    s = lift(s)
    if s.i and n >= 0:
        return s
    if s.const:
        if isinstance(s.c, float):
            return s
        return S(Fraction(round(Fraction(s.c), n)), None, False)
    p = Fraction(10) ** n
    return to_real(rint(s * S(p, None, False))) * S(1 / p, None, False)


_UF = {}


def ufn(name, n):
    key = (name, n)
    if key not in _UF:
        _UF[key] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UF[key]


def uf(name, *args):
    """Uninterpreted real function of scalars."""
    zs = [lift(a).zr() for a in args]
    zs = [z3.simplify(z) for z in zs]
    ENG.abstract = True
    return S(None, ufn(name, len(zs))(*zs), False)


def named(name, groups, lo=None, hi=None, symmetric=False):
    """A real unknown determined by the (simplified) terms in groups:
    syntactically equal arguments give the same unknown."""
    key = [tuple(t.get_id() for t in g) for g in groups]
    if symmetric:
        key.sort()
    key = (name,) + tuple(key)
    ENG.abstract = True
    hit = ENG.lin_cache.get(key)
    if hit is None:
        v = z3.Real('%s!%d' % (name, len(ENG.lin_cache)))
        hit = ENG.lin_cache[key] = (v, groups)
        if lo is not None:
            ENG.add(v >= lo)
        if hi is not None:
            ENG.add(v <= hi)
    return S(None, hit[0], False)


_MATH = {
    'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'sin': math.sin,
    'cos': math.cos, 'tan': math.tan, 'arctan': math.atan,
    'arcsin': math.asin, 'arccos': math.acos, 'sinh': math.sinh,
    'cosh': math.cosh, 'tanh': math.tanh, 'arcsinh': math.asinh,
    'log2': math.log2, 'log10': math.log10, 'log1p': math.log1p,
    'expm1': math.expm1}


_ODD = ('sin', 'tan', 'sinh', 'tanh', 'arctan', 'arcsin', 'arcsinh')
_EVEN = ('cos', 'cosh')


def un(name, s):
    s = lift(s)
    if s is None:
        raise TypeError("bad operand type for %s" % name)
    if isinstance(s, SC):
        if name == 'exp':
            m = un('exp', s.re)
            return SC(m * un('cos', s.im), m * un('sin', s.im))
        raise EngineLimit("complex %s" % name)
    if s.const:
        x = s.c
        if name == 'sqrt' and not isinstance(x, float) and x >= 0:
            fx = Fraction(x)
            p, q = math.isqrt(fx.numerator), math.isqrt(fx.denominator)
            if p * p == fx.numerator and q * q == fx.denominator:
                return S(Fraction(p, q), None, False)
        try:
            return S(_frac(_MATH[name](float(x))), None, False)
        except ValueError:
            if name == 'log' and x == 0:
                return S(-math.inf, None, False)
            return S(math.nan, None, False)
        except OverflowError:
            return S(math.inf, None, False)
    if name == 'sqrt':
        r = _root(s)
        if r is not None:
            return r
    if name in _ODD or name in _EVEN:
        d = _lin(s)[0]
        if d[min(d)][1] < 0:        # f(-x) is f(x) or -f(x)
            r = un(name, _lscale(s, Fraction(-1)))
            return r if name in _EVEN else -r
    r = uf(name, s)
    x = s.zr()
    if name == 'sqrt':
        ENG.add(z3.And(r.e >= 0, (r.e == 0) == (x <= 0)))
        ENG.add(z3.Implies(x >= 0, r.e * r.e == x))
        if r.e is not None:
            ROOTS[r.e.get_id()] = (r.e, s)
    elif name == 'exp':
        ENG.add(z3.And(r.e > 0, (r.e >= 1) == (x >= 0),
                       (r.e <= 1) == (x <= 0)))
    elif name == 'log':
        ENG.add(z3.And((r.e >= 0) == (x >= 1), (r.e <= 0) == (x <= 1)))
        for b in (Fraction(1, 1000), Fraction(1, 10), Fraction(4),
                  Fraction(1000)):
            v = Fraction(math.log(b))
            e = Fraction(1, 10 ** 9)
            ENG.add(z3.And(
                z3.Implies(x >= z3.RealVal(b), r.e >= z3.RealVal(v - e)),
                z3.Implies(z3.And(x > 0, x <= z3.RealVal(b)),
                           r.e <= z3.RealVal(v + e))))
    elif name in ('sin', 'cos', 'tanh'):
        ENG.add(z3.And(r.e >= -1, r.e <= 1))
    elif name == 'cosh':
        ENG.add(r.e >= 1)
    elif name in ('sinh', 'arcsinh', 'arctan'):
        ENG.add(z3.And((r.e >= 0) == (x >= 0), (r.e <= 0) == (x <= 0)))
    return r


def smin(a, b):
    a, b = lift(a), lift(b)
    c = cmp('le', a, b)
    if isinstance(c, bool):
        return a if c else b
    return ite(c, a, b)


def smax(a, b):
    a, b = lift(a), lift(b)
    c = cmp('ge', a, b)
    if isinstance(c, bool):
        return a if c else b
    return ite(c, a, b)


class SC:
    """Complex of two S."""
    __slots__ = ('re', 'im')
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re = lift(re)
        self.im = lift(im)

    shape = ()
    ndim = 0
    size = 1

    @staticmethod
    def of(x):
        if isinstance(x, SC):
            return x
        if isinstance(x, complex):
            return SC(x.real, x.imag)
        return SC(lift(x), S(0, None, True))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from engine import snp
        return snp.ufunc_dispatch(ufunc, method, *inputs, **kw)

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im

    def conjugate(self):
        return SC(self.re, -self.im)
    conj = conjugate

    @staticmethod
    def arith(op, a, b):
        if op == 'add':
            return SC(a.re + b.re, a.im + b.im)
        if op == 'sub':
            return SC(a.re - b.re, a.im - b.im)
        if op == 'mul':
            return SC(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        if op == 'div':
            d = b.re * b.re + b.im * b.im
            n = SC.arith('mul', a, b.conjugate())
            return SC(n.re / d, n.im / d)
        if op == 'pow':
            k = int(b.re)
            r = a
            for _ in range(k - 1):
                r = SC.arith('mul', r, a)
            return r
        raise EngineLimit("complex " + op)

    def __add__(self, o): return arith('add', self, o)
    def __radd__(self, o): return arith('add', o, self)
    def __sub__(self, o): return arith('sub', self, o)
    def __rsub__(self, o): return arith('sub', o, self)
    def __mul__(self, o): return arith('mul', self, o)
    def __rmul__(self, o): return arith('mul', o, self)
    def __truediv__(self, o): return arith('div', self, o)
    def __rtruediv__(self, o): return arith('div', o, self)
    def __pow__(self, o): return arith('pow', self, o)
    def __neg__(self): return SC(-self.re, -self.im)
    def __eq__(self, o): return cmp('eq', self, o)
    def __ne__(self, o): return cmp('ne', self, o)
    def __hash__(self): return hash((self.re, self.im))

    def __abs__(self):
        return un('sqrt', self.re * self.re + self.im * self.im)

    def __bool__(self):
        return bool(bor(cmp('ne', self.re, 0), cmp('ne', self.im, 0)))

    def __repr__(self):
        return "(%r+%rj)" % (self.re, self.im)
