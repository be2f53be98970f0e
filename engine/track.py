"""Conflicting accesses of parallel iterations."""
import numpy as np


class Track:
    """Who touches which element inside a parallel region.

    An element written by one iteration (numba prange, CUDA thread, joblib
    thread) and read or written by another has no schedule-independent value;
    without such an element every interleaving gives the result of the
    sequential order, which is the one executed here."""

    def __init__(self):
        self.it = None
        self.who = None
        self.wr = {}
        self.rd = {}
        self.keep = []
        self.races = []
        self.regions = 0
        self.touched = 0

    def begin(self):
        self.wr, self.rd, self.keep = {}, {}, []
        self.regions += 1

    def end(self):
        self.it = None
        self.wr, self.rd, self.keep = {}, {}, []

    def each(self, items, what):
        """Iterate, marking every item as one parallel iteration."""
        if self.it is not None:          # nested regions run in their parent
            yield from items
            return
        self.begin()
        self.what = what
        try:
            for n, v in enumerate(items):
                self.it = n
                yield v
        finally:
            self.end()

    def log(self, ap, nidx, write):
        if self.it is None:
            self.it = self.who() if self.who else None
            if self.it is None:
                return
            try:
                self.log(ap, nidx, write)
            finally:
                self.it = None
            return
        self.keep.append(ap)
        adr = np.full(ap.shape, ap.__array_interface__['data'][0],
                      dtype=np.int64)
        for k, (n, st) in enumerate(zip(ap.shape, ap.strides)):
            sh = [1] * ap.ndim
            sh[k] = n
            adr = adr + (np.arange(n, dtype=np.int64) * st).reshape(sh)
        t = adr if nidx is None else adr[nidx]
        for p in np.ravel(t).tolist():
            self.touched += 1
            w = self.wr.get(p)
            if w is not None and w != self.it:
                self.hit(w)
            if write:
                for r in self.rd.get(p, ()):
                    if r != self.it:
                        self.hit(r)
                self.wr[p] = self.it
            else:
                self.rd.setdefault(p, set()).add(self.it)

    def hit(self, other):
        if len(self.races) < 5:
            self.races.append('%s: iterations %s and %s share an element' % (
                self.what, other, self.it))


def cuda_races(f):
    """Run f with the kernels of the CUDA simulator watched; True if no two
    of their threads share a written element."""
    import threading
    from numba.cuda.simulator.cudadrv import devicearray as da
    from numba.cuda.simulator import kernel
    t = Track()
    lock = threading.Lock()
    t.what = 'CUDA threads'

    def who():
        c = threading.current_thread()
        if not isinstance(c, kernel.BlockThread):
            return None
        return tuple(c.blockIdx) + tuple(c.threadIdx)
    t.who = who
    get, put = da.FakeCUDAArray.__getitem__, da.FakeCUDAArray.__setitem__
    call = kernel.FakeCUDAKernel.__call__

    def g(self, idx):
        with lock:
            t.log(self._ary, idx, False)
        return get(self, idx)

    def p(self, idx, v):
        with lock:
            t.log(self._ary, idx, True)
        return put(self, idx, v)

    def c(self, *a):
        if not self._device:
            t.begin()
        return call(self, *a)
    da.FakeCUDAArray.__getitem__, da.FakeCUDAArray.__setitem__ = g, p
    kernel.FakeCUDAKernel.__call__ = c
    try:
        f()
    finally:
        da.FakeCUDAArray.__getitem__, da.FakeCUDAArray.__setitem__ = get, put
        kernel.FakeCUDAKernel.__call__ = call
    return not t.races
