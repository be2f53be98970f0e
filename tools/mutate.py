"""Small changes of the functions a property encodes that its check misses.

    tools/mutate.py C07 [-n 40] [-s SEED] [-w 4] [-f REGEX]

Works on scratch copies under /tmp; prints every surviving change."""
import argparse
import ast
import copy
import glob
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = '/repo'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
NAMES = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor',
         'mean': 'median', 'median': 'mean', 'zeros': 'ones',
         'ones': 'zeros', 'argmax': 'argmin', 'argmin': 'argmax',
         'round': 'floor', 'fft': 'ifft', 'fftshift': 'ifftshift',
         'sin': 'cos', 'cos': 'sin', 'fliplr': 'flipud', 'flipud': 'fliplr',
         'copy': 'asarray', 'nanmin': 'nanmax'}


def sites(fn):
    """(description, mutate(node)) pairs; nodes are numbered by walk order."""
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and
                                        isinstance(n.value, ast.Constant)):
            skip.update(id(k) for k in ast.walk(n))
        if isinstance(n, ast.Call) and getattr(
                n.func, 'attr', getattr(n.func, 'id', '')) in (
                'warn', 'print', 'format'):
            skip.update(id(k) for k in ast.walk(n))
    for d in fn.args.defaults + fn.args.kw_defaults + fn.decorator_list:
        if d is not None:
            skip.update(id(k) for k in ast.walk(d))
    for k, n in enumerate(ast.walk(fn)):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((k, 'cmp', None))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((k, 'bin', None))
        elif isinstance(n, ast.BoolOp):
            out.append((k, 'bool', None))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub)):
            out.append((k, 'un', None))
        elif isinstance(n, ast.Constant) and type(n.value) in (
                int, float, bool):
            out.append((k, 'const', None))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            out.append((k, 'attr', None))
        elif isinstance(n, ast.Slice):
            for w in ('lower', 'upper'):
                if getattr(n, w) is not None:
                    out.append((k, 'slice', w))
        elif isinstance(n, ast.If):
            out.append((k, 'if', None))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n is not fn:
            if isinstance(n, ast.AugAssign) or not isinstance(
                    n.targets[0], (ast.Name, ast.Tuple)):
                out.append((k, 'drop', None))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            out.append((k, 'swap', None))
        elif isinstance(n, ast.Call) and n.keywords:
            out.append((k, 'kw', None))
    return out


def apply(fn, site, rng):
    k, kind, w = site
    n = list(ast.walk(fn))[k]
    before = ast.unparse(n)
    line = n.lineno if hasattr(n, 'lineno') else 0
    if kind == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == 'bin':
        n.op = BIN[type(n.op)]()
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'un':
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == 'const':
        v = n.value
        n.value = (not v) if isinstance(v, bool) else \
            v + rng.choice((1, -1)) if isinstance(v, int) else \
            rng.choice((v * 1.1 + 0.01, v * 0.5))
    elif kind == 'attr':
        n.attr = NAMES[n.attr]
    elif kind == 'slice':
        line = getattr(n, w).lineno
        setattr(n, w, ast.BinOp(getattr(n, w), rng.choice(
            (ast.Add(), ast.Sub())), ast.Constant(1)))
    elif kind == 'if':
        n.test = ast.Constant(rng.choice((True, False)))
        before, line = before.split('\n')[0], n.lineno
    elif kind == 'drop':
        n.__class__ = ast.Pass
        n._fields = ()
    elif kind == 'swap':
        i = rng.randrange(len(n.args) - 1)
        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    elif kind == 'kw':
        n.keywords.pop(rng.randrange(len(n.keywords)))
    after = ast.unparse(ast.fix_missing_locations(n)) if kind != 'drop' \
        else 'pass'
    if kind == 'if':
        after = after.split('\n')[0]
    return line, before, after


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('-n', type=int, default=40)
    a.add_argument('-s', type=int, default=1)
    a.add_argument('-w', type=int, default=4)
    a.add_argument('-j', type=int, default=2)
    a.add_argument('-f', default='')
    a.add_argument('--also', default='')
    a.add_argument('--thorough', action='store_true')
    o = a.parse_args()
    from engine import registry
    p = registry.load(o.prop)
    rng = random.Random(o.s)
    pool = []
    for f in p.functions:
        if not re.search(o.f, f):
            continue
        mod, _, name = f.rpartition('.')
        parts = f.split('.')
        for cut in range(len(parts) - 1, 0, -1):
            path = os.path.join('algotom', *parts[:cut]) + '.py'
            if os.path.exists(os.path.join(REPO, path)):
                break
        else:
            continue
        src = open(os.path.join(REPO, path)).read()
        tree = ast.parse(src)
        body, node = tree.body, None
        for q in parts[cut:]:
            node = next((n for n in body if getattr(n, 'name', '') == q),
                        None)
            body = getattr(node, 'body', [])
        if node is None or not isinstance(node, ast.FunctionDef):
            print('no function', f)
            continue
        for s in sites(node):
            pool.append((path, f, s))
    rng.shuffle(pool)
    print(len(pool), 'sites')
    base = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    os.chmod(base, 0o755)
    free = []
    for k in range(o.w):
        d = os.path.join(base, 'r%d' % k)
        shutil.copytree(os.path.join(REPO, 'algotom'),
                        os.path.join(d, 'algotom'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        subprocess.run(['chmod', '-R', 'a+rX', d])
        vd = os.path.join(base, 'v%d' % k)
        shutil.copytree(HERE, vd, ignore=shutil.ignore_patterns(
            '.git', 'evidence', 'seeded', '__pycache__'))
        os.makedirs(os.path.join(vd, 'evidence'))
        subprocess.run(['chmod', '-R', 'a+rX', vd])
        free.append((d, vd))
    props = [o.prop] + [x for x in o.also.split(',') if x]
    stat = {'caught': 0, 'lived': 0, 'unclear': 0}

    def one(job):
        path, f, s = job
        r2 = random.Random(repr(job) + str(o.s))
        full = os.path.join(REPO, path)
        src = open(full).read()
        tree = ast.parse(src)
        body = tree.body
        parts = f.split('.')
        cut = len(path.split(os.sep)) - 1
        node = None
        for q in parts[cut:]:
            node = next(n for n in body if getattr(n, 'name', '') == q)
            body = node.body
        lo = min([node.lineno] + [x.lineno for x in node.decorator_list]) - 1
        hi = node.end_lineno
        ind = node.col_offset
        try:
            line, b, c = apply(node, s, r2)
            text = ast.unparse(ast.fix_missing_locations(node))
        except Exception:
            return
        lines = src.split('\n')
        new = [' ' * ind + t for t in text.split('\n')]
        mutated = '\n'.join(lines[:lo] + new + lines[hi:])
        d, vd = free.pop()
        try:
            open(os.path.join(d, path), 'w').write(mutated)
            res = []
            for q in props:
                r = subprocess.run(
                    [os.path.join(vd, 'check.sh'), q,
                     'thorough' if o.thorough else 'quick', '-j', str(o.j)],
                    env=dict(os.environ, VERIF_REPO=d), cwd=vd,
                    capture_output=True, text=True)
                res.append(r.returncode)
                if r.returncode == 1:
                    break
            if 1 in res:
                stat['caught'] += 1
            else:
                kind = 'lived' if set(res) == {0} else 'unclear'
                stat[kind] += 1
                print('%-8s %s:%d %s\n    %s\n    %s' % (
                    kind, path, line, f.split('.')[-1], b[:150], c[:150]),
                    flush=True)
        finally:
            shutil.copy(full, os.path.join(d, path))
            free.append((d, vd))

    with ThreadPoolExecutor(o.w) as ex:
        list(ex.map(one, pool[:o.n]))
    print(o.prop, stat, flush=True)
    shutil.rmtree(base)


main()
