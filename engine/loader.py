"""Load /repo/algotom sources into a private module graph whose imports are
the symbolic stand-ins.  The source text is read from the tree on every run.
One rewriting is applied: a bare "except:" becomes "except Exception:", so that
it does not swallow the engine's own control-flow exceptions."""
import ast
import builtins
import os
import sys
import types
from engine import shims

REPO = os.environ.get('VERIF_REPO', '/repo')


_CODE = {}


class SymLoader:
    def __init__(self, extra=None):
        self.mods = {}
        self.table = shims.build()
        if extra:
            self.table.update(extra)
        self.sources = {}
        b = types.ModuleType('builtins')
        b.__dict__.update(builtins.__dict__)
        b.__dict__.update({
            '__import__': self._import, 'int': shims.int_shim,
            'float': shims.float_shim, 'bool': shims.bool_shim,
            'max': shims.max_shim, 'min': shims.min_shim,
            'sum': shims.sum_shim, 'any': shims.any_shim,
            'all': shims.all_shim, 'round': shims.round_shim,
            'isinstance': shims.isinstance_shim, 'range': shims.range_shim,
            'print': shims.print_shim, 'open': self._open,
            'input': None})
        self.builtins = b
        self.opener = None

    def fresh(self):
        """Forget module state (a new path starts from fresh imports)."""
        self.mods = {}

    def _open(self, *a, **k):
        if self.opener is None:
            raise shims.EngineLimit("file access")
        return self.opener(*a, **k)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + ('.' + name if name else '')
        if name == 'algotom' or name.startswith('algotom.'):
            if not fromlist:
                self.get(name)
                return self.mods['algotom']
            m = self.get(name)
            for f in fromlist:
                if not hasattr(m, f):
                    try:
                        setattr(m, f, self.get(name + '.' + f))
                    except FileNotFoundError:
                        pass
            return m
        if name in self.table:
            if fromlist:
                return self.table[name]
            return self.table[name.split('.')[0]]
        root = name.split('.')[0]
        if root in self.table and root not in ('os',):
            m = self.table[root]
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m if fromlist else self.table[root]
        return builtins.__import__(name, globals, locals, fromlist, level)

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        parts = name.split('.')
        if len(parts) > 1:
            self.get('.'.join(parts[:-1]))
        path = os.path.join(REPO, *parts)
        pkg = os.path.isdir(path)
        fn = os.path.join(path, '__init__.py') if pkg else path + '.py'
        if not os.path.exists(fn):
            raise FileNotFoundError(fn)
        code = _CODE.get(fn)
        if code is None:
            with open(fn) as f:
                src = f.read()
            tree = ast.parse(src, fn)
            for nd in ast.walk(tree):
                if isinstance(nd, ast.ExceptHandler) and nd.type is None:
                    nd.type = ast.copy_location(
                        ast.Name('Exception', ast.Load()), nd)
            code = _CODE[fn] = compile(tree, fn, 'exec')
        mod = types.ModuleType(name)
        mod.__file__ = fn
        mod.__package__ = name if pkg else '.'.join(parts[:-1])
        if pkg:
            mod.__path__ = [path]
        mod.__dict__['__builtins__'] = self.builtins.__dict__
        self.mods[name] = mod
        if len(parts) > 1:
            setattr(self.mods['.'.join(parts[:-1])], parts[-1], mod)
        self.sources[name] = fn
        exec(code, mod.__dict__)
        return mod
