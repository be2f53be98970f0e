"""Plant a bug: plant.py SPEC.json [--no-tests] [--no-check]

SPEC: {"id", "property", "file", "edits": [[old, new], ...], "demo": python
source, "needs", "what_it_breaks"} (several files: "file" per edit as a third
item).  Writes seeded/<id>/, then runs the demo on /repo and on a scratch copy
with the change, the repository's tests on the copy, and the property's check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, text=True, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def main():
    spec = json.load(open(sys.argv[1]))
    d = os.path.join(HERE, 'seeded', spec['id'])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plant_')
    os.chmod(tmp, 0o755)
    rep = os.path.join(tmp, 'repo')
    try:
        shutil.copytree(REPO, rep, symlinks=True,
                        ignore=shutil.ignore_patterns('__pycache__'))
        for ed in spec['edits']:
            f = os.path.join(rep, ed[2] if len(ed) > 2 else spec['file'])
            s = open(f).read()
            if s.count(ed[0]) != 1:
                sys.exit('%d matches of %r' % (s.count(ed[0]), ed[0]))
            open(f, 'w').write(s.replace(ed[0], ed[1]))
        diff = sh(['git', 'diff'], rep).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# cwd: the repository\n'
                    'export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\n'
                    'export NUMBA_CACHE_DIR=$(mktemp -d)\n'
                    'trap \'rm -rf "$NUMBA_CACHE_DIR"\' EXIT\n'
                    '/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(spec['demo'])
        json.dump({'property': spec['property'], 'needs': spec['needs'],
                   'what_it_breaks': spec['what_it_breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh(['bash', d + '/demo.sh'], REPO)
        b = sh(['bash', d + '/demo.sh'], rep)
        print(spec['id'], 'demo clean', a.returncode, 'changed',
              b.returncode, (a.stdout[-300:] if a.returncode else ''),
              (b.stdout[-200:]))
        if '--no-tests' not in sys.argv:
            t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x',
                    '--timeout=300', '-n', '4', 'tests']
                   if '--xd' in sys.argv else
                   [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                    '--timeout=300', '--randomly-seed=1',
                    '--randomly-dont-reorganize', 'tests'], rep,
                   {'PYTHONPATH': rep, 'NUMBA_CACHE_DIR': tmp + '/nb'})
            print('  tests:', t.stdout.strip().splitlines()[-1])
            for ln in t.stdout.splitlines():
                if ln.startswith('FAILED'):
                    print('   ', ln)
        if '--no-check' not in sys.argv:
            c = sh([os.path.join(HERE, 'check.sh'), spec['property'],
                    'quick'], HERE, {'VERIF_REPO': rep})
            print('  check rc', c.returncode, '\n'.join(
                x[:300] for x in c.stdout.strip().splitlines()[-3:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
