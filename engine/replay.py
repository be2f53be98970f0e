"""Concrete replay server: runs a harness on the real package.

stdin: JSON lines {"prop","case","values"}; stdout: JSON lines with outcome.
Runs as an unprivileged user with a scratch directory of its own when started
by root, so whatever the replayed code writes or deletes stays there.
"""
import io
import json
import os
import sys
import traceback
import warnings


def run_one(req, scratch):
    import importlib
    import shutil
    import tempfile
    from engine import harness, registry
    case = registry.find(req['prop'], req['case'])
    d = tempfile.mkdtemp(dir=scratch)
    ctx = harness.ConCtx(req['values'], case.params, d)
    cwd = os.getcwd()
    out = {'status': 'ok', 'failures': [], 'records': []}
    try:
        os.chdir(d)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            case.fn(ctx, **case.params)
    except harness.Skip as e:
        out['status'] = 'skip'
        out['error'] = str(e)
    except Exception as e:
        out['status'] = 'error'
        out['error'] = "%s: %s" % (type(e).__name__, e)
        out['trace'] = traceback.format_exc()[-1500:]
    finally:
        os.chdir(cwd)
        # the folder itself stays: it is the working directory of worker
        # processes that joblib keeps for later calls
        for n in os.listdir(d):
            q = os.path.join(d, n)
            if os.path.isdir(q) and not os.path.islink(q):
                shutil.rmtree(q, ignore_errors=True)
            else:
                os.unlink(q)
    if ctx.failures:
        out['status'] = 'fail'
    out['failures'] = ctx.failures[:10]
    out['records'] = ctx.records[:400]
    return out


def drop_privileges():
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass


def main():
    scratch = sys.argv[1]
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(1, here)
    real_out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    if len(sys.argv) > 2:                    # replay one file
        with open(sys.argv[2]) as f:
            req = json.load(f)
        drop_privileges()
        res = run_one(req, scratch)
        res.pop('records', None)
        print(json.dumps(res, indent=1), file=real_out)
        sys.exit(1 if res['status'] in ('fail', 'error') else 0)
    drop_privileges()
    for line in sys.stdin:
        req = json.loads(line)
        res = run_one(req, scratch)
        real_out.write(json.dumps(res) + "\n")
        real_out.flush()


if __name__ == '__main__':
    main()
