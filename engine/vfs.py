"""Files with symbolic contents.

Paths, folders, globbing, renaming and deletion are the *real* operating
system on a throw-away scratch directory (so os / pathlib / glob / shutil are
the real modules); only the contents of image and HDF files are kept on the
side, as arrays of symbolic values, keyed by a token written in the real file.
"""
import builtins
import io
import os
import numpy as np
import types
from engine import sym, snp, shims
from engine.sym import S, SB, EngineLimit
from engine.snp import SArr, asarray, mk, cast, LD

MAGIC = "SYMFILE:"


class Store:
    def __init__(self):
        self.tab = {}
        self.n = 0

    def put(self, path, obj):
        self.n += 1
        key = "%s%d:%s" % (MAGIC, self.n, "0" * 40)
        self.tab[key] = obj
        with builtins.open(path, 'w') as f:
            f.write(key)

    def get(self, path):
        with builtins.open(path, 'rb') as f:
            key = f.read(200).decode('latin1')
        if key not in self.tab:
            raise OSError("cannot identify file %r" % str(path))
        return self.tab[key]


STORE = Store()


# ------------------------------------------------------------------- PIL
class Img:
    def __init__(self, arr):
        self.arr = arr
        self.size = (arr.shape[1], arr.shape[0]) if arr.ndim > 1 else None

    def __sym_array__(self):
        return self.arr

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def save(self, path, *a, **k):
        d = os.path.dirname(str(path))
        if d and not os.path.isdir(d):
            raise FileNotFoundError(str(path))
        STORE.put(str(path), ('img', self.arr.copy()))


class PILImage(types.ModuleType):
    Image = Img

    def __init__(self):
        super().__init__('PIL.Image')

    @staticmethod
    def open(path, *a):
        kind, arr = STORE.get(str(path))
        if kind != 'img':
            raise OSError("cannot identify image file")
        return Img(arr)

    @staticmethod
    def fromarray(mat, mode=None):
        mat = asarray(mat)
        if mat._ldt == 'float64':
            mat = cast(mat, 'float32')    # PIL: F mode is float32
        elif mat._ldt in ('int64', 'uint32', 'uint64'):
            raise TypeError("Cannot handle this data type: %s" % mat._ldt)
        return Img(mat)


# ------------------------------------------------------------------ h5py
class Group:
    def __init__(self, name, parent=None, file=None):
        self.name = name
        self.parent = parent
        self.kids = {}
        self.file = file or self
        self.attrs = {}

    def _walk(self, key):
        parts = [p for p in str(key).split('/') if p]
        node = self
        if str(key).startswith('/'):
            node = self.file
        for p in parts:
            if not isinstance(node, Group) or p not in node.kids:
                return None
            node = node.kids[p]
        return node

    def __contains__(self, key):
        return self._walk(key) is not None

    def __getitem__(self, key):
        n = self._walk(key)
        if n is None:
            raise KeyError("Unable to synchronously open object (object %r "
                           "doesn't exist)" % key)
        return n

    def get(self, key, default=None):
        n = self._walk(key)
        return default if n is None else n

    def keys(self):
        return sorted(self.kids)

    def items(self):
        return [(k, self.kids[k]) for k in sorted(self.kids)]

    def values(self):
        return [self.kids[k] for k in sorted(self.kids)]

    def __iter__(self):
        return iter(sorted(self.kids))

    def __len__(self):
        return len(self.kids)

    def visit(self, f):
        def go(n, pre):
            for k in sorted(n.kids):
                r = f(pre + k)
                if r is not None:
                    return r
                if isinstance(n.kids[k], Group):
                    r = go(n.kids[k], pre + k + '/')
                    if r is not None:
                        return r
        return go(self, '')

    def visititems(self, f):
        return self.visit(lambda k: f(k, self[k]))

    def _mkparent(self, key):
        parts = [p for p in key.split('/') if p]
        node = self
        for p in parts[:-1]:
            if p not in node.kids:
                node.kids[p] = Group(
                    node.name.rstrip('/') + '/' + p, node, self.file)
            node = node.kids[p]
            if not isinstance(node, Group):
                raise ValueError("Unable to create dataset (component not "
                                 "found)")
        return node, parts[-1]

    def create_group(self, key):
        node, last = self._mkparent(key)
        if last in node.kids:
            raise ValueError("Unable to create group (name already exists)")
        node.kids[last] = Group(node.name.rstrip('/') + '/' + last, node,
                                self.file)
        return node.kids[last]

    require_group = create_group

    def create_dataset(self, key, shape=None, dtype=None, data=None, **k):
        node, last = self._mkparent(key)
        if last in node.kids:
            raise ValueError("Unable to synchronously create dataset (name "
                             "already exists)")
        if data is not None:
            if isinstance(data, str):
                arr = data
            else:
                arr = asarray(data)
                if isinstance(arr, SArr):
                    arr = arr.copy()
                if dtype is not None:
                    arr = cast(arr, dtype)
        else:
            arr = snp.zeros(shape, dtype or 'float32')
        d = Dataset(node.name.rstrip('/') + '/' + last, arr, self.file)
        node.kids[last] = d
        return d

    def __setitem__(self, key, val):
        self.create_dataset(key, data=val)


class Dataset:
    def __init__(self, name, arr, file):
        self.name = name
        self.arr = arr
        self.file = file

    @property
    def shape(self):
        return tuple(getattr(self.arr, 'shape', ()))

    @property
    def dtype(self):
        return getattr(self.arr, 'dtype', np.dtype('float64'))

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return getattr(self.arr, 'size', 1)

    def __len__(self):
        return len(self.arr)

    def _idx(self, idx):
        t = idx if isinstance(idx, tuple) else (idx,)
        for x in t:
            if isinstance(x, slice) and x.step is not None and \
                    int(x.step) < 1:
                raise ValueError("Step must be >= 1 (got %d)" % int(x.step))
            if isinstance(x, (list, SArr)):
                v = [int(y) for y in x] if not (
                    isinstance(x, SArr) and x._ldt == 'bool') else []
                if any(q <= p for p, q in zip(v, v[1:])):
                    raise TypeError("Indexing elements must be in increasing "
                                    "order")
        return idx

    def __getitem__(self, idx):
        if idx == () if isinstance(idx, tuple) else False:
            return self.arr
        r = self.arr[self._idx(idx)]
        return r.copy() if isinstance(r, SArr) else r

    def __setitem__(self, idx, val):
        self.arr[self._idx(idx)] = cast(val, self.arr._ldt) \
            if isinstance(val, SArr) else val

    def __sym_array__(self):
        return self.arr

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def astype(self, dt):
        return self.arr.astype(dt)

    def flush(self):
        pass


class File(Group):
    def __init__(self, path, mode='r', **k):
        self.filename = str(path)
        if mode == 'r' or (mode in ('a', 'r+') and os.path.exists(
                self.filename)):
            if not os.path.exists(self.filename):
                raise FileNotFoundError(
                    "[Errno 2] Unable to synchronously open file (unable to "
                    "open file: name = '%s')" % path)
            kind, root = STORE.get(self.filename)
            if kind != 'hdf':
                raise OSError("Unable to synchronously open file (file "
                              "signature not found)")
            super().__init__('/', None, None)
            self.kids = root.kids
            self.mode = mode
            self.file = self
        else:
            if mode in ('w-', 'x') and os.path.exists(self.filename):
                raise FileExistsError("Unable to create file")
            super().__init__('/', None, None)
            self.mode = 'r+'
            STORE.put(self.filename, ('hdf', self))

    def close(self):
        pass

    flush = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __bool__(self):
        return True


def modules():
    h5 = types.ModuleType('h5py')
    h5.File, h5.Group, h5.Dataset = File, Group, Dataset
    h5._hl = types.SimpleNamespace()
    im = PILImage()
    pil = types.ModuleType('PIL')
    pil.Image = im
    return {'h5py': h5, 'PIL': pil, 'PIL.Image': im}
